From ef7a36d1e27e2cdb394df761dc0d47e56bfb59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 01/76] fix: WordsData equality takes the text into account

---
 Sourcecode/include/mx/api/WordsData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/WordsData.h b/Sourcecode/include/mx/api/WordsData.h
index 33362d4..65b46b4 100644
--- a/Sourcecode/include/mx/api/WordsData.h
+++ b/Sourcecode/include/mx/api/WordsData.h
@@ -34,6 +34,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( WordsData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_MEMBER( positionData )
         MXAPI_EQUALS_MEMBER( fontData )
         MXAPI_EQUALS_MEMBER( isColorSpecified )
-- 
2.43.0


From 9bf9aaaf66dcd797bbeb454dfd33fadf3bf08534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 02/76] fix: NoteData equality takes the notehead into account

---
 Sourcecode/include/mx/api/NoteData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/NoteData.h b/Sourcecode/include/mx/api/NoteData.h
index 1c1539b..28f6874 100644
--- a/Sourcecode/include/mx/api/NoteData.h
+++ b/Sourcecode/include/mx/api/NoteData.h
@@ -138,6 +138,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( isTieStart )
         MXAPI_EQUALS_MEMBER( isTieStop )
         MXAPI_EQUALS_MEMBER( noteType )
+        MXAPI_EQUALS_MEMBER( notehead )
         MXAPI_EQUALS_MEMBER( pitchData )
         MXAPI_EQUALS_MEMBER( userRequestedVoiceNumber )
         MXAPI_EQUALS_MEMBER( stem )
-- 
2.43.0


From 8823d3cdf0cfd4ededac1520111a98fc5b839a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 03/76] fix: PartGroupData equality takes the bracket type and
 number into account

---
 Sourcecode/include/mx/api/PartGroupData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 42c7e66..e7b4cb7 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -72,6 +72,8 @@ namespace mx
         MXAPI_EQUALS_MEMBER( displayName )
         MXAPI_EQUALS_MEMBER( abbreviation )
         MXAPI_EQUALS_MEMBER( displayAbbreviation )
+        MXAPI_EQUALS_MEMBER( bracketType )
+        MXAPI_EQUALS_MEMBER( number )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( PartGroupData );
     }
-- 
2.43.0


From 311478676a8526682ca71f5a1e9f4eace51f397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 04/76] fix: DirectionData equality takes the rehearsal marks
 into account

---
 Sourcecode/include/mx/api/DirectionData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index 2a66026..a612bbc 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -122,6 +122,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( chords )
         MXAPI_EQUALS_MEMBER( segnos )
         MXAPI_EQUALS_MEMBER( codas )
+        MXAPI_EQUALS_MEMBER( rehearsals )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( DirectionData );
 	}
-- 
2.43.0


From 13abdc52058986a025f1990bec10a850b0675449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 05/76] fix: DefaultsData equality takes the scaling into
 account

---
 Sourcecode/include/mx/api/DefaultsData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 81f254f..8f58b15 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,6 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
-- 
2.43.0


From 68858bffc4dc75aeabce03847c564092a5380c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 06/76] fix: PageTextData::pageNumber has a defined value in
 every new object

---
 Sourcecode/include/mx/api/PageTextData.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/include/mx/api/PageTextData.h b/Sourcecode/include/mx/api/PageTextData.h
index 80e0241..cc73587 100644
--- a/Sourcecode/include/mx/api/PageTextData.h
+++ b/Sourcecode/include/mx/api/PageTextData.h
@@ -22,7 +22,7 @@ namespace mx
         {
         public:
             std::string text;
-            int pageNumber;
+            int pageNumber = 0;
             PositionData positionData;
             FontData fontData;
             std::string description; // e.g. 'composer', 'page number', 'title', etc., this is metadata which does not appear on the printed page
-- 
2.43.0


From 9c22b7644fceaf7b94f1f50cb38f1ca1e7cca0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 07/76] fix: TempoData scalar fields have defined values in
 every new object

---
 Sourcecode/include/mx/api/TempoData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/include/mx/api/TempoData.h b/Sourcecode/include/mx/api/TempoData.h
index 5349baa..d888832 100644
--- a/Sourcecode/include/mx/api/TempoData.h
+++ b/Sourcecode/include/mx/api/TempoData.h
@@ -62,11 +62,11 @@ namespace mx
         class TempoData
         {
         public:
-            int tickTime;
-            Bool isParenthetical;
+            int tickTime = 0;
+            Bool isParenthetical = Bool::unspecified;
             PrintData printData;
             PositionData positionData;
-            TempoType tempoType;
+            TempoType tempoType = TempoType::unspecified;
             
             // only used when tempoType is 'beatsPerMinute'
             BeatsPerMinute beatsPerMinute;
-- 
2.43.0


From 95a3d53966aa8d3948ffd50f6cdb283ddeb1df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 08/76] fix: PartGroupData::bracketType is initialised

---
 Sourcecode/include/mx/api/PartGroupData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index e7b4cb7..294ff38 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -59,6 +59,7 @@ namespace mx
             : firstPartIndex{ -1 }
             , lastPartIndex{ -1 }
             , name{}
+            , bracketType{ BracketType::unspecified }
             , number{ -1 }
             {
             
-- 
2.43.0


From 4ebf24168be91bb5bb81e9c4ddcec0a3d72d545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 09/76] fix: the spacing flag is initialised by the constructor
 from a set

---
 Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..550d048 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -35,6 +35,7 @@ namespace mx
         
         CommaSeparatedListOfPositiveIntegers::CommaSeparatedListOfPositiveIntegers( const std::set<int>& values )
         :myValues()
+        ,myIsSpacingDesired( false )
         {
             setValues( values );
         }
-- 
2.43.0


From 6de9d202dd3b6f99d3b96006447184bb6cb3459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 10/76] fix: DocumentSpec is initialised with its documented
 defaults

---
 Sourcecode/private/mx/core/DocumentSpec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/DocumentSpec.cpp b/Sourcecode/private/mx/core/DocumentSpec.cpp
index f02c0cc..9e136ae 100644
--- a/Sourcecode/private/mx/core/DocumentSpec.cpp
+++ b/Sourcecode/private/mx/core/DocumentSpec.cpp
@@ -129,8 +129,8 @@ namespace mx
         DocumentSpec::DocumentSpec()
            // : xmlVersion( DEFAULT_XML_VERSION )
             //, encoding( DEFAULT_ENCODING )
-            //, documentChoice( DEFAULT_DOCUMENT_CHOICE )
-            //, musicXmlVersion( DEFAULT_MUSIC_XML_VERSION )
+            : documentChoice( DEFAULT_DOCUMENT_CHOICE )
+            , musicXmlVersion( DEFAULT_MUSIC_XML_VERSION )
         {
             
         }
-- 
2.43.0


From 53c00113b26bd6bdc7006e9358fb274b97f5fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 11/76] fix: DynamicsAttributes initialises its enumeration
 fields

---
 .../private/mx/core/elements/DynamicsAttributes.cpp       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/DynamicsAttributes.cpp b/Sourcecode/private/mx/core/elements/DynamicsAttributes.cpp
index 43d8d39..607ad19 100644
--- a/Sourcecode/private/mx/core/elements/DynamicsAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/DynamicsAttributes.cpp
@@ -11,7 +11,13 @@ namespace mx
     namespace core
     {
         DynamicsAttributes::DynamicsAttributes()
-        :hasDefaultX( false )
+        :fontStyle( FontStyle::normal )
+        ,fontWeight( FontWeight::normal )
+        ,halign( LeftCenterRight::center )
+        ,valign( Valign::baseline )
+        ,placement( AboveBelow::below )
+        ,enclosure( EnclosureShape::rectangle )
+        ,hasDefaultX( false )
         ,hasDefaultY( false )
         ,hasRelativeX( false )
         ,hasRelativeY( false )
-- 
2.43.0


From 76e339ba12071e4154d128f61b65a04502f74163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 12/76] fix: NoteReader initialises the stem fields

---
 Sourcecode/private/mx/impl/NoteReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteReader.cpp b/Sourcecode/private/mx/impl/NoteReader.cpp
index 495d2c7..4ea62ed 100644
--- a/Sourcecode/private/mx/impl/NoteReader.cpp
+++ b/Sourcecode/private/mx/impl/NoteReader.cpp
@@ -85,6 +85,8 @@ namespace mx
         , myIsAccidentalCautionary{ false }
         , myIsAccidentalEditorial{ false }
         , myIsAccidentalBracketed{ false }
+        , myIsStemSpecified{ false }
+        , myStem{ core::StemValue::none }
         , myIsTieStart{ false }
         , myIsTieStop{ false }
         , myHasLyric{ false }
-- 
2.43.0


From 19ceeafaba2ca4eb1ff6d02455d10f231011ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 13/76] fix: EmptyLineAttributes writes dash-length once

---
 Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
index 9ebc909..e62f40c 100644
--- a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
@@ -63,7 +63,6 @@ namespace mx
         {
             if ( hasValues() )
             {
-                streamAttribute( os, dashLength, "dash-length", hasDashLength );
                 streamAttribute( os, lineShape, "line-shape", hasLineShape );
                 streamAttribute( os, lineType, "line-type", hasLineType );
                 streamAttribute( os, dashLength, "dash-length", hasDashLength );
-- 
2.43.0


From c91ee1c21eb6a0a3f86d81e34ec206559d4e60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 14/76] fix: TiedAttributes reads the second bezier point under
 the names it writes

---
 Sourcecode/private/mx/core/elements/TiedAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
index abd228b..6f94347 100644
--- a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
@@ -123,11 +123,11 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, placement, hasPlacement, "placement", &parseAboveBelow ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, orientation, hasOrientation, "orientation", &parseOverUnder ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierOffset, hasBezierOffset, "bezier-offset" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierX, hasBezierX, "bezier-x" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierY, hasBezierY, "bezier-y" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x-2" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-- 
2.43.0


From 51ddf74a8f3d30755efbaebebd83973eb13f4f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 15/76] fix: link and opus attributes are read under their
 xlink names

---
 Sourcecode/private/mx/core/elements/LinkAttributes.cpp | 10 +++++-----
 Sourcecode/private/mx/core/elements/OpusAttributes.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
index 21f8475..ef6bd5c 100644
--- a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
@@ -91,7 +91,7 @@ namespace mx
             
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -99,10 +99,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, name, hasName, "name" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, element, hasElement, "element" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, position, hasPosition, "position" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
index dd5aa18..e998866 100644
--- a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
@@ -63,7 +63,7 @@ namespace mx
         
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -71,10 +71,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
             }
         
             if( !isHrefFound )
-- 
2.43.0


From f92517a243050efb7384b6dddc55513278c55fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 16/76] fix: HoleClosed reads its attributes

---
 Sourcecode/private/mx/core/elements/HoleClosed.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/HoleClosed.cpp b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
index 2f6e7fb..0e43339 100644
--- a/Sourcecode/private/mx/core/elements/HoleClosed.cpp
+++ b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
@@ -89,10 +89,9 @@ namespace mx
         
         bool HoleClosed::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            MX_UNUSED( message );
-            MX_UNUSED( xelement );
+            const bool isSuccess = myAttributes->fromXElement( message, xelement );
             myValue = parseHoleClosedValue( xelement.getValue() );
-            return true;
+            return isSuccess;
         }
     }
 }
-- 
2.43.0


From 7c1b3e9e70f63585fbba13bf0e33f36415523bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 17/76] fix: Play reads its attributes and its children

---
 Sourcecode/private/mx/core/elements/Play.cpp | 56 ++++++++++++--------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Play.cpp b/Sourcecode/private/mx/core/elements/Play.cpp
index bd489ab..a26ec0d 100644
--- a/Sourcecode/private/mx/core/elements/Play.cpp
+++ b/Sourcecode/private/mx/core/elements/Play.cpp
@@ -172,29 +172,43 @@ namespace mx
 
         bool Play::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            if( xelement.getName() == "ipa" )
-            {
-                myChoice = Choice::ipa;
-                return getIpa()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "mute" )
-            {
-                myChoice = Choice::mute;
-                return getMute()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "semi-pitched" )
-            {
-                myChoice = Choice::semiPitched;
-                return getSemiPitched()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "other-play" )
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
+
+            auto endIter = xelement.end();
+
+            for( auto it = xelement.begin(); it != endIter; ++it )
             {
-                myChoice = Choice::otherPlay;
-                return getOtherPlay()->fromXElement( message, xelement );
+                const std::string elementName = it->getName();
+
+                if( elementName == "ipa" )
+                {
+                    myChoice = Choice::ipa;
+                    isSuccess &= getIpa()->fromXElement( message, *it );
+                }
+                else if( elementName == "mute" )
+                {
+                    myChoice = Choice::mute;
+                    isSuccess &= getMute()->fromXElement( message, *it );
+                }
+                else if( elementName == "semi-pitched" )
+                {
+                    myChoice = Choice::semiPitched;
+                    isSuccess &= getSemiPitched()->fromXElement( message, *it );
+                }
+                else if( elementName == "other-play" )
+                {
+                    myChoice = Choice::otherPlay;
+                    isSuccess &= getOtherPlay()->fromXElement( message, *it );
+                }
+                else
+                {
+                    isSuccess = false;
+                    message << "Play: '" << elementName << "' is not valid" << std::endl;
+                }
             }
-            
-            message << "Encoding: '" << xelement.getName() << "' is not valid" << std::endl;
-            return false;
+
+            return isSuccess;
         }
 
     }
-- 
2.43.0


From a855b9842728516dadd05f6c763475319d686bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 18/76] fix: Arrow keeps a circular-arrow that was read

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..f96f769 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,11 +141,12 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
                 }
-                myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                else
+                {
+                    myChoice = Choice::arrowGroup;
+                    isSuccess &= myArrowGroup->fromXElement( message, xelement );
+                }
             }
 
             MX_RETURN_IS_SUCCESS;
-- 
2.43.0


From ae7de4dc2b60bc33aec8e990c154f8b847a1dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 19/76] fix: Credit reads link and bookmark from the child
 itself

---
 Sourcecode/private/mx/core/elements/Credit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Credit.cpp b/Sourcecode/private/mx/core/elements/Credit.cpp
index aa3d200..7ccbb9a 100644
--- a/Sourcecode/private/mx/core/elements/Credit.cpp
+++ b/Sourcecode/private/mx/core/elements/Credit.cpp
@@ -307,7 +307,7 @@ namespace mx
                         while( i != endIter && i->getName() == "link" )
                         {
                             auto link = makeLink();
-                            isSuccess &= link->fromXElement( message, xelement );
+                            isSuccess &= link->fromXElement( message, *i );
                             creditWordsGroup->addLink( link );
                             ++i;
                         }
@@ -316,7 +316,7 @@ namespace mx
                         while( i != endIter && i->getName() == "bookmark" )
                         {
                             auto bookmark = makeBookmark();
-                            isSuccess &= bookmark->fromXElement( message, xelement );
+                            isSuccess &= bookmark->fromXElement( message, *i );
                             creditWordsGroup->addBookmark( bookmark );
                             ++i;
                         }
-- 
2.43.0


From 46e873e49f362c2295cbb4b7a96cc60dd20edb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 20/76] fix: Lyric keeps extend, laughing and humming when more
 children follow

---
 Sourcecode/private/mx/core/elements/Lyric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Lyric.cpp b/Sourcecode/private/mx/core/elements/Lyric.cpp
index 4094400..02b0959 100644
--- a/Sourcecode/private/mx/core/elements/Lyric.cpp
+++ b/Sourcecode/private/mx/core/elements/Lyric.cpp
@@ -209,7 +209,8 @@ namespace mx
                     static_cast<int>( LyricTextChoice::Choice::humming ) ) )
                 { isLyricTextChoiceFound = true; continue; }
                 
-                else
+                else if( it->getName() != "end-line" && it->getName() != "end-paragraph" &&
+                         it->getName() != "footnote" && it->getName() != "level" )
                 {
                     myLyricTextChoice->setChoice( LyricTextChoice::Choice::syllabicTextGroup );
                     SyllabicTextGroupPtr ptr = myLyricTextChoice->getSyllabicTextGroup();
-- 
2.43.0


From 466ff4a93fa5f2186bb86bc00ec7d89e31e80f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 21/76] fix: MetronomeTuplet reads normal-type and normal-dot

---
 .../mx/core/elements/MetronomeTuplet.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
index 0d20fcb..eb5385e 100644
--- a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
+++ b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
@@ -5,7 +5,9 @@
 #include "mx/core/elements/MetronomeTuplet.h"
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/ActualNotes.h"
+#include "mx/core/elements/NormalDot.h"
 #include "mx/core/elements/NormalNotes.h"
+#include "mx/core/elements/NormalType.h"
 #include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
 #include <iostream>
 
@@ -148,7 +150,20 @@ namespace mx
             {
                 if ( importElement( message, *it, isSuccess, *myActualNotes, isActualNotesFound ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myNormalNotes, isNormalNotesFound ) ) { continue; }
-                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot, myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+                if ( it->getName() == "normal-type" )
+                {
+                    isSuccess &= myTimeModificationNormalTypeNormalDot->getNormalType()->fromXElement( message, *it );
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    continue;
+                }
+                if ( it->getName() == "normal-dot" )
+                {
+                    auto normalDot = makeNormalDot();
+                    isSuccess &= normalDot->fromXElement( message, *it );
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    myTimeModificationNormalTypeNormalDot->addNormalDot( normalDot );
+                    continue;
+                }
             }
 
             if( !isActualNotesFound )
-- 
2.43.0


From 33cc1bac359574a8fd8ffa498233655d73c520b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 22/76] fix: Notations recognises other-notation under its name

---
 Sourcecode/private/mx/core/elements/Notations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Notations.cpp b/Sourcecode/private/mx/core/elements/Notations.cpp
index c04477a..c1d2ec2 100644
--- a/Sourcecode/private/mx/core/elements/Notations.cpp
+++ b/Sourcecode/private/mx/core/elements/Notations.cpp
@@ -265,7 +265,7 @@ namespace mx
                     isSuccess &= choice->getAccidentalMark()->fromXElement( message, *it );
                     myNotationsChoiceSet.push_back( choice );
                 }
-                else if ( elementName == "other-notations" )
+                else if ( elementName == "other-notation" )
                 {
                     auto choice = makeNotationsChoice();
                     choice->setChoice( NotationsChoice::Choice::otherNotation );
-- 
2.43.0


From c1f3dde5c956676d2967ceaf95769fc9991c45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 23/76] fix: NoteheadText reads its children from the children
 themselves

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index cb92a20..c9ef69f 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -102,7 +102,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::accidentalText );
-                    isSuccess &= item->getAccidentalText()->fromXElement( message, xelement );
+                    isSuccess &= item->getAccidentalText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
@@ -119,7 +119,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::displayText );
-                    isSuccess &= item->getDisplayText()->fromXElement( message, xelement );
+                    isSuccess &= item->getDisplayText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
-- 
2.43.0


From 8d32d19224b4f4c8ea480c128cb212ea64315be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 24/76] fix: Sound writes midi-instrument only when it has one

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index eedab00..feb7e81 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -56,7 +56,7 @@ namespace mx
                 os << std::endl;
                 myMidiDevice->toStream( os, indentLevel+1 );
             }
-            if ( myMidiInstrument )
+            if ( myHasMidiInstrument )
             {
                 os << std::endl;
                 myMidiInstrument->toStream( os, indentLevel+1 );
-- 
2.43.0


From 34893b16b2b25afbb8dca16fec37772360ed9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 25/76] fix: a syllabic after an elision is kept when it is
 read

---
 Sourcecode/private/mx/core/FromXElement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index bf3c2c4..8cc809d 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -330,6 +330,7 @@ namespace mx
                 {
                     
                     isSuccess &= elisionSyllabicTextGroup->getElisionSyllabicGroup()->getSyllabic()->fromXElement( message, *iter );
+                    elisionSyllabicTextGroup->getElisionSyllabicGroup()->setHasSyllabic( true );
                     elisionSyllabicTextGroup->setHasElisionSyllabicGroup( true );
                     ++iter;
                     isIterIncremented = true;
-- 
2.43.0


From ed35155baac3565304e4825ddece32d70fc82f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 26/76] fix: DocumentSpec toStream functions fall through into
 the next string

---
 Sourcecode/private/mx/core/DocumentSpec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/DocumentSpec.cpp b/Sourcecode/private/mx/core/DocumentSpec.cpp
index 9e136ae..824be03 100644
--- a/Sourcecode/private/mx/core/DocumentSpec.cpp
+++ b/Sourcecode/private/mx/core/DocumentSpec.cpp
@@ -20,6 +20,7 @@ namespace mx
                     break;
                 case DocumentChoice::timewise:
                     os << "timewise";
+                    break;
                 default:
                     os << "error";
                     break;
@@ -59,6 +60,7 @@ namespace mx
                     break;
                 case MusicXmlVersion::threePointZero:
                     os << "3.0";
+                    break;
                 default:
                     os << "error";
                     break;
@@ -94,8 +96,10 @@ namespace mx
                     break;
                 case SpecificationType::dtd:
                     os << "dtd";
+                    break;
                 case SpecificationType::xsd:
                     os << "xsd";
+                    break;
                 default:
                     os << "error";
                     break;
-- 
2.43.0


From f8e248eae91fffa038f4e840e80f630cb6ae55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 27/76] fix: parseSpecificationType returns dtd for xsd

---
 Sourcecode/private/mx/core/DocumentSpec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/DocumentSpec.cpp b/Sourcecode/private/mx/core/DocumentSpec.cpp
index 824be03..6054257 100644
--- a/Sourcecode/private/mx/core/DocumentSpec.cpp
+++ b/Sourcecode/private/mx/core/DocumentSpec.cpp
@@ -124,7 +124,7 @@ namespace mx
             }
             else if( utility::compareCaseInsensitive( str, "xsd" ) )
             {
-                return SpecificationType::dtd;
+                return SpecificationType::xsd;
             }
             return DEFAULT_SPECIFICATION_TYPE;
         }
-- 
2.43.0


From 398bdf42cb76f5de61c4129d38d4a483dd00428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 28/76] fix: Time and BeatUnitPerOrNoteRelationNoteChoice
 setters accept null

---
 .../mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp | 5 ++++-
 Sourcecode/private/mx/core/elements/Time.cpp                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
index 6dee9d5..5f61084 100644
--- a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
@@ -100,7 +100,10 @@ namespace mx
 
         void BeatUnitPerOrNoteRelationNoteChoice::setNoteRelationNote( const NoteRelationNotePtr& value )
         {
-            myNoteRelationNote = value;
+            if ( value )
+            {
+                myNoteRelationNote = value;
+            }
         }
 
 
diff --git a/Sourcecode/private/mx/core/elements/Time.cpp b/Sourcecode/private/mx/core/elements/Time.cpp
index ebb7e62..74a2940 100644
--- a/Sourcecode/private/mx/core/elements/Time.cpp
+++ b/Sourcecode/private/mx/core/elements/Time.cpp
@@ -77,7 +77,10 @@ namespace mx
 
         void Time::setTimeChoice( const TimeChoicePtr& value )
         {
-            myChoice = value;
+            if ( value )
+            {
+                myChoice = value;
+            }
         }
 
 
-- 
2.43.0


From 51062258d3fb91893afad8c398188588b8df26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 29/76] fix: clearing the parts of a timewise measure leaves it
 without the required part

---
 Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
index bd546f5..436834d 100644
--- a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
+++ b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
@@ -106,6 +106,7 @@ namespace mx
         void TimewiseMeasure::clearTimewisePartSet()
         {
             myTimewisePartSet.clear();
+            myTimewisePartSet.push_back( makeTimewisePart() );
         }
 
 
-- 
2.43.0


From f8fb261f78d5cf19de68ad77e7c8c1bdcdbd9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 30/76] fix: keep not-a-number and near-bound values inside the
 range of the bounded decimals

minInclusive and minExclusive let not-a-number through, and a number closer
to an exclusive bound than the precision that is stored was rounded onto the
bound.
---
 Sourcecode/private/mx/core/Decimals.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..8c8de6a 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -354,7 +354,8 @@ namespace mx
 
         DecimalType minExclusive( DecimalType min, DecimalType val )
         {
-            if( val <= min )
+            // written so that a number that would be rounded to min, and not-a-number, are clamped too
+            if( !( val >= min + NON_ZERO_AMOUNT ) )
             {
                 return min + NON_ZERO_AMOUNT;
             }
@@ -364,7 +365,8 @@ namespace mx
 
         DecimalType minInclusive( DecimalType min, DecimalType val )
         {
-            if( val < min )
+            // written so that not-a-number is clamped too
+            if( !( val >= min ) )
             {
                 return min;
             }
@@ -374,7 +376,7 @@ namespace mx
 
         DecimalType maxExclusive( DecimalType max, DecimalType val )
         {
-            if( val >= max )
+            if( val > max - NON_ZERO_AMOUNT )
             {
                 return max - NON_ZERO_AMOUNT;
             }
-- 
2.43.0


From b0e08a62cd86f57541ab8570fa5411485e377fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 31/76] fix: escape quotation marks in text

Attribute values are delimited by quotation marks, which were written as they
are, so that a quotation mark in any attribute broke the document.
---
 Sourcecode/private/mx/core/XsString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..d566811 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,10 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '"':
+                        os << "&quot;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
-- 
2.43.0


From a6f195ea21a4094a214114fdc623cc9940cd6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 32/76] fix: escape custom values of dynamics, mode, distance
 type and line width type

The custom text of these values was written without escaping.
---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..2fef857 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From 8338810dee7974576e14005c84df22ba24098389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 33/76] fix: report failures while reading note durations, part
 lists, time modifications and metronomes

The result of reading these parts was ignored or overwritten, so that a
document that could not be read completely was reported as read.
---
 Sourcecode/private/mx/core/elements/Metronome.cpp        | 2 +-
 Sourcecode/private/mx/core/elements/Note.cpp             | 4 ++--
 Sourcecode/private/mx/core/elements/PartList.cpp         | 5 +++--
 Sourcecode/private/mx/core/elements/TimeModification.cpp | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Metronome.cpp b/Sourcecode/private/mx/core/elements/Metronome.cpp
index 0b67c9a..061fa35 100644
--- a/Sourcecode/private/mx/core/elements/Metronome.cpp
+++ b/Sourcecode/private/mx/core/elements/Metronome.cpp
@@ -138,7 +138,7 @@ namespace mx
                     else if ( iter->getName() == "per-minute" )
                     {
                         myBeatUnitPerOrNoteRelationNoteChoice->getBeatUnitPer()->getPerMinuteOrBeatUnitChoice()->setChoice( PerMinuteOrBeatUnitChoice::Choice::perMinute );
-                        myBeatUnitPerOrNoteRelationNoteChoice->getBeatUnitPer()->getPerMinuteOrBeatUnitChoice()->getPerMinute()->fromXElement( message, *iter );
+                        isSuccess &= myBeatUnitPerOrNoteRelationNoteChoice->getBeatUnitPer()->getPerMinuteOrBeatUnitChoice()->getPerMinute()->fromXElement( message, *iter );
                         isIterIncremented = true;
                         ++iter;
                     }
diff --git a/Sourcecode/private/mx/core/elements/Note.cpp b/Sourcecode/private/mx/core/elements/Note.cpp
index eba6498..deef8b1 100644
--- a/Sourcecode/private/mx/core/elements/Note.cpp
+++ b/Sourcecode/private/mx/core/elements/Note.cpp
@@ -854,11 +854,11 @@ namespace mx
                 
                 if( getNoteChoice()->getChoice() == NoteChoice::Choice::normal )
                 {
-                    getNoteChoice()->getNormalNoteGroup()->getDuration()->fromXElement( message, *iter );
+                    isSuccess &= getNoteChoice()->getNormalNoteGroup()->getDuration()->fromXElement( message, *iter );
                 }
                 else if( getNoteChoice()->getChoice() == NoteChoice::Choice::cue )
                 {
-                    getNoteChoice()->getCueNoteGroup()->getDuration()->fromXElement( message, *iter );
+                    isSuccess &= getNoteChoice()->getCueNoteGroup()->getDuration()->fromXElement( message, *iter );
                 }
                 ++iter;
             }
diff --git a/Sourcecode/private/mx/core/elements/PartList.cpp b/Sourcecode/private/mx/core/elements/PartList.cpp
index a2b4829..81b66fe 100644
--- a/Sourcecode/private/mx/core/elements/PartList.cpp
+++ b/Sourcecode/private/mx/core/elements/PartList.cpp
@@ -171,6 +171,7 @@ namespace mx
                 if( elementName != "part-group" && elementName != "score-part" )
                 {
                     message << "PartList: fromXElement encountered unexpected element '" << elementName << "'" << std::endl;
+                    isSuccess = false;
                 }
                 if( !isFirstScorePartEncountered )
                 {
@@ -193,12 +194,12 @@ namespace mx
                     if( elementName == "part-group" )
                     {
                         partGroupOrScorePart->setChoice( PartGroupOrScorePart::Choice::partGroup );
-                        partGroupOrScorePart->getPartGroup()->fromXElement( message, *it );
+                        isSuccess &= partGroupOrScorePart->getPartGroup()->fromXElement( message, *it );
                     }
                     else if( elementName == "score-part" )
                     {
                         partGroupOrScorePart->setChoice( PartGroupOrScorePart::Choice::scorePart );
-                        partGroupOrScorePart->getScorePart()->fromXElement( message, *it );
+                        isSuccess &= partGroupOrScorePart->getScorePart()->fromXElement( message, *it );
                     }
                     
                     myPartGroupOrScorePartSet.push_back( partGroupOrScorePart );
diff --git a/Sourcecode/private/mx/core/elements/TimeModification.cpp b/Sourcecode/private/mx/core/elements/TimeModification.cpp
index 54c277a..71dc8f7 100644
--- a/Sourcecode/private/mx/core/elements/TimeModification.cpp
+++ b/Sourcecode/private/mx/core/elements/TimeModification.cpp
@@ -136,7 +136,7 @@ namespace mx
                 if( it->getName() == "normal-type" )
                 {
                     myHasNormalTypeNormalDotGroup = true;
-                    isSuccess = myNormalTypeNormalDotGroup->getNormalType()->fromXElement( message, *it );
+                    isSuccess &= myNormalTypeNormalDotGroup->getNormalType()->fromXElement( message, *it );
                 }
                 
                 if( it->getName() == "normal-dot" )
-- 
2.43.0


From 5b0aeeee5732cae81a5fbb8985ff042d2e1b69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 34/76] fix: reading a registered timewise document leaves it
 timewise when reading fails

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..ada8412 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,7 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 
@@ -189,21 +190,19 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
+            const bool isTimewise = it->second->getChoice() == core::DocumentChoice::timewise;
 
-            if( it->second->getChoice() == core::DocumentChoice::timewise )
-            {
-                wasTimewise = true;
-                it->second->convertContents();
-            }
+            // the reader needs the partwise form, the registered document must keep the form that it has
+            const auto scorePartwise = isTimewise
+                ? core::timewisePartwise( it->second->getScoreTimewise() )
+                : it->second->getScorePartwise();
 
-            impl::ScoreReader reader{ *it->second->getScorePartwise() };
+            impl::ScoreReader reader{ *scorePartwise };
             auto score = reader.getScoreData();
 
-            if( wasTimewise )
+            if( isTimewise )
             {
                 score.musicXmlType = "timewise";
-                it->second->convertContents();
             }
             return score;
         }
-- 
2.43.0


From 1190f299461bcbfb6c94ca613545d388a1ebb5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 35/76] fix: NoteRelationNote::fromXElementImpl reads each
 metronome-note once

---
 Sourcecode/private/mx/core/elements/NoteRelationNote.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteRelationNote.cpp b/Sourcecode/private/mx/core/elements/NoteRelationNote.cpp
index 2c8cfd7..c5de6ba 100644
--- a/Sourcecode/private/mx/core/elements/NoteRelationNote.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteRelationNote.cpp
@@ -135,7 +135,7 @@ namespace mx
             auto endIter = xelement.end();
             for( auto it = xelement.begin(); it != endIter; ++it )
             {
-                importElementSet( message, it, endIter, isSuccess, "metronome-note", myMetronomeNoteSet );
+                if ( importElementSet( message, it, endIter, isSuccess, "metronome-note", myMetronomeNoteSet ) ) { continue; }
                 importGroup( message, it, endIter, isSuccess, myMetronomeRelationGroup, myHasMetronomeRelationGroup );
             }
 
-- 
2.43.0


From 7dd092d7fcbd1fc77a9009eb921bbc53ceaefaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 36/76] fix: importing an editorial group leaves the cursor on
 the group's last element

---
 Sourcecode/private/mx/core/FromXElement.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index 8cc809d..ff16e03 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -103,6 +103,12 @@ namespace mx
 
             checkSetGroupMemberAndIncrementIter( message, iter, endIter, isSuccess, doDecrementIter, group, &EditorialGroup::getLevel, &EditorialGroup::setHasLevel );
             if( isEndWithDecrementIfNeeded( iter, endIter, doDecrementIter ) ) { return ; }
+
+            if( doDecrementIter )
+            {
+                --iter;
+                return;
+            }
         }
 
         void importGroup(
@@ -126,6 +132,12 @@ namespace mx
 
             checkSetGroupMemberAndIncrementIter( message, iter, endIter, isSuccess, doDecrementIter, group, &EditorialVoiceGroup::getVoice, &EditorialVoiceGroup::setHasVoice );
             if( isEndWithDecrementIfNeeded( iter, endIter, doDecrementIter ) ) { return ; }
+
+            if( doDecrementIter )
+            {
+                --iter;
+                return;
+            }
         }
 
 
@@ -150,6 +162,12 @@ namespace mx
 
             checkSetGroupMemberAndIncrementIter( message, iter, endIter, isSuccess, doDecrementIter, group, &EditorialVoiceDirectionGroup::getVoice, &EditorialVoiceDirectionGroup::setHasVoice );
             if( isEndWithDecrementIfNeeded( iter, endIter, doDecrementIter ) ) { return ; }
+
+            if( doDecrementIter )
+            {
+                --iter;
+                return;
+            }
         }
 
         void importGroup(
-- 
2.43.0


From c73ea64907e95e5fedfa6f307b62137b24a72cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 37/76] fix: the sharp-sharp accidental is converted in both
 directions

---
 Sourcecode/private/mx/impl/Converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 68345e7..c1d5bd2 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -88,6 +88,7 @@ namespace mx
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::natural, api::Accidental::natural },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flat, api::Accidental::flat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::doubleSharp, api::Accidental::doubleSharp },
+            std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::sharpSharp, api::Accidental::sharpSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flatFlat, api::Accidental::flatFlat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalSharp, api::Accidental::naturalSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalFlat, api::Accidental::naturalFlat },
-- 
2.43.0


From 38718039548cbfb3dcc1bf14b836aba05d2660eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 38/76] fix: the fa-up notehead is converted in both directions

---
 Sourcecode/private/mx/impl/Converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index c1d5bd2..0991219 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -67,6 +67,7 @@ namespace mx
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::re, api::Notehead::re },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::mi, api::Notehead::mi },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::fa, api::Notehead::fa },
+            std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::faUp, api::Notehead::faUp },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::la, api::Notehead::la },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::so  , api::Notehead::so },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::ti, api::Notehead::ti },
-- 
2.43.0


From 64816abdb7ee90e659ef1d7d511cc06a1cad1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 39/76] fix: the fingernails technical mark is converted in
 both directions

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 0991219..4dcf3ca 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -328,7 +328,7 @@ namespace mx
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::tap, api::MarkType::unspecified },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::heel, api::MarkType::heel },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::toe, api::MarkType::toe },
-            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::unspecified },
+            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::fingernails },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::hole, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::arrow, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::handbell, api::MarkType::unspecified },
-- 
2.43.0


From 867792e1a480a2de0fffef7d9778ac7f99f08e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 40/76] fix: NotationsWriter writes arpeggiate, non-arpeggiate
 and accidental marks

---
 Sourcecode/private/mx/impl/Converter.cpp      |  6 +++
 Sourcecode/private/mx/impl/Converter.h        |  1 +
 .../private/mx/impl/NotationsWriter.cpp       | 39 +++++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 4dcf3ca..3fa572b 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -1648,6 +1648,12 @@ namespace mx
         }
 
         
+        bool Converter::isAccidentalMark( api::MarkType value ) const
+        {
+            return convertAccidentalMark( convertAccidentalMark( value ) ) == value;
+        }
+
+
         core::AccidentalValue Converter::convertAccidentalMark( api::MarkType value ) const
         {
             return findCoreItem( accidentalMarkMap, core::AccidentalValue::natural, value );
diff --git a/Sourcecode/private/mx/impl/Converter.h b/Sourcecode/private/mx/impl/Converter.h
index dd8f23e..093386b 100644
--- a/Sourcecode/private/mx/impl/Converter.h
+++ b/Sourcecode/private/mx/impl/Converter.h
@@ -79,6 +79,7 @@ namespace mx
             core::OrnamentsChoice::Choice convertOrnament( api::MarkType value ) const;
             api::MarkType convertOrnament( core::OrnamentsChoice::Choice value ) const;
             
+            bool isAccidentalMark( api::MarkType value ) const;
             core::AccidentalValue convertAccidentalMark( api::MarkType value ) const;
             api::MarkType convertAccidentalMark( core::AccidentalValue value ) const;
             
diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2ad0656..f170f79 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -4,6 +4,8 @@
 
 #include "mx/impl/NotationsWriter.h"
 #include "mx/core/elements/Accent.h"
+#include "mx/core/elements/AccidentalMark.h"
+#include "mx/core/elements/Arpeggiate.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Articulations.h"
 #include "mx/core/elements/ArticulationsChoice.h"
@@ -31,6 +33,7 @@
 #include "mx/core/elements/InvertedTurn.h"
 #include "mx/core/elements/Mordent.h"
 #include "mx/core/elements/Notations.h"
+#include "mx/core/elements/NonArpeggiate.h"
 #include "mx/core/elements/NotationsChoice.h"
 #include "mx/core/elements/OpenString.h"
 #include "mx/core/elements/Ornaments.h"
@@ -353,6 +356,42 @@ namespace mx
                     }
                     
                 }
+                else if( isMarkArpeggiate( mark.markType ) )
+                {
+                    auto arpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( arpeggiateNotationsChoice );
+                    arpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::arpeggiate );
+                    auto& attr = *arpeggiateNotationsChoice->getArpeggiate()->getAttributes();
+                    impl::setAttributesFromMarkData( mark, attr );
+
+                    if( mark.markType == api::MarkType::arpeggiateUp )
+                    {
+                        attr.hasDirection = true;
+                        attr.direction = core::UpDown::up;
+                    }
+                    else if( mark.markType == api::MarkType::arpeggiateDown )
+                    {
+                        attr.hasDirection = true;
+                        attr.direction = core::UpDown::down;
+                    }
+                }
+                else if( isMarkNonArpeggiate( mark.markType ) )
+                {
+                    auto nonArpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( nonArpeggiateNotationsChoice );
+                    nonArpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::nonArpeggiate );
+                    auto& attr = *nonArpeggiateNotationsChoice->getNonArpeggiate()->getAttributes();
+                    impl::setAttributesFromMarkData( mark, attr );
+                }
+                else if( myConverter.isAccidentalMark( mark.markType ) )
+                {
+                    auto accidentalMarkNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( accidentalMarkNotationsChoice );
+                    accidentalMarkNotationsChoice->setChoice( core::NotationsChoice::Choice::accidentalMark );
+                    auto& accidentalMark = *accidentalMarkNotationsChoice->getAccidentalMark();
+                    accidentalMark.setValue( myConverter.convertAccidentalMark( mark.markType ) );
+                    impl::setAttributesFromMarkData( mark, *accidentalMark.getAttributes() );
+                }
             }
             
             if( articulations->getArticulationsChoiceSet().size() > 0 )
-- 
2.43.0


From b31fd62cc17ead40caf745ba58bab0079d4e2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 41/76] fix: DirectionReader reads damp-all as damp-all, not as
 a rehearsal mark

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 41ba238..e71c376 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -268,7 +268,7 @@ namespace mx
                 }
                 case core::DirectionType::Choice::dampAll:
                 {
-                    parseRehearsal( directionType );
+                    parseDampAll( directionType );
                     break;
                 }
                 case core::DirectionType::Choice::eyeglasses:
-- 
2.43.0


From e3abee9dcacfbd8d329ed30bde6495d5fab6be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 42/76] fix: NoteWriter stores the display position in the note
 kind that was selected

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f3502e6..18389e0 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -343,7 +343,8 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::rest );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    myOutFullNoteTypeChoice->getRest()->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = myOutFullNoteTypeChoice->getRest()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
@@ -360,6 +361,7 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::unpitched );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
+                    myOutFullNoteTypeChoice->getUnpitched()->setHasDisplayStepOctaveGroup( true );
                     auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
-- 
2.43.0


From 53f0df7b0d807e18150bb4aad2db43ca2ee023b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 43/76] fix: PartReader reads the displayed abbreviation, not
 the displayed name

---
 Sourcecode/private/mx/impl/PartReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..5104091 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -28,6 +28,7 @@
 #include "mx/core/elements/Note.h"
 #include "mx/core/elements/Pan.h"
 #include "mx/core/elements/PartAbbreviation.h"
+#include "mx/core/elements/PartAbbreviationDisplay.h"
 #include "mx/core/elements/PartGroupOrScorePart.h"
 #include "mx/core/elements/PartList.h"
 #include "mx/core/elements/PartName.h"
@@ -208,7 +209,7 @@ namespace mx
             
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
-                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
-- 
2.43.0


From b6108cbd41fffd8ebe53d1345e9db843a5ba889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 44/76] fix: parseBracket leaves the number level unspecified
 when there is no number

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index e71c376..b92015c 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -475,7 +475,10 @@ namespace mx
             {
                 api::SpannerStop stop;
                 stop.tickTimePosition = myCursor.tickTimePosition;
-                stop.numberLevel = impl::checkNumber( &attr );
+                if( attr.hasNumber )
+                {
+                    stop.numberLevel = impl::checkNumber( &attr );
+                }
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
                 return;
@@ -484,7 +487,10 @@ namespace mx
             {
                 api::SpannerStart start;
                 start.tickTimePosition = myCursor.tickTimePosition;
-                start.numberLevel = impl::checkNumber( &attr );
+                if( attr.hasNumber )
+                {
+                    start.numberLevel = impl::checkNumber( &attr );
+                }
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
                 start.printData = impl::getPrintData( attr );
-- 
2.43.0


From 29b9480393c27c9df94f2105838636195a6b41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 45/76] fix: the arranger and the publisher are read and
 written as such

---
 Sourcecode/private/mx/impl/ScoreReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index a6c3668..5ffa138 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -232,13 +232,13 @@ namespace mx
                     
                     if( a->type.getValue() == "arranger" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.arranger = i->getValue().getValue();
                         isArrangerFound = true;
                     }
                     
                     if( a->type.getValue() == "publisher" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.publisher = i->getValue().getValue();
                         isPublisherFound = true;
                     }
                 }
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 661c0e8..502f341 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -109,6 +109,26 @@ namespace mx
                 header->getIdentification()->addCreator( lyricist );
             }
             
+            if( !myScoreData.arranger.empty() )
+            {
+                auto arranger = core::makeCreator();
+                arranger->getAttributes()->hasType = true;
+                arranger->getAttributes()->type = core::XsToken( "arranger" );
+                arranger->setValue( core::XsString( myScoreData.arranger ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( arranger );
+            }
+            
+            if( !myScoreData.publisher.empty() )
+            {
+                auto publisher = core::makeCreator();
+                publisher->getAttributes()->hasType = true;
+                publisher->getAttributes()->type = core::XsToken( "publisher" );
+                publisher->setValue( core::XsString( myScoreData.publisher ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( publisher );
+            }
+            
             if( !myScoreData.copyright.empty() )
             {
                 auto copyright = core::makeRights();
-- 
2.43.0


From 8a7840aea2648b44c5662ecf3293f4b936f8c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 46/76] fix: line ends and end lengths reach and leave the
 bracket attributes

---
 Sourcecode/private/mx/impl/LineFunctions.h | 31 +++++++++++-----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LineFunctions.h b/Sourcecode/private/mx/impl/LineFunctions.h
index 4efb8d5..32213e3 100644
--- a/Sourcecode/private/mx/impl/LineFunctions.h
+++ b/Sourcecode/private/mx/impl/LineFunctions.h
@@ -17,8 +17,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_FUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
 
-        MX_ATTR_FUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_FUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_FUNC_OPTIONAL( hasLineEnd, HasLineEnd, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_FUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( dashLength, DashLength, long double, 0.0L );
@@ -26,8 +26,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( spaceLength, SpaceLength, long double, 0.0L );
         
-        MX_ATTR_FUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_FUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         api::LineData getLineData( const ATTRIBUTES_TYPE& inAttributes )
@@ -40,9 +40,9 @@ namespace mx
                 lineData.lineType = converter.convert( checkLineType<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
-            if( checkHasLineStop<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
-                lineData.lineHook = converter.convert( checkLineStop<ATTRIBUTES_TYPE>( &inAttributes ) );
+                lineData.lineHook = converter.convert( checkLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
             if( checkHasDashLength( &inAttributes ) )
@@ -57,10 +57,10 @@ namespace mx
                 lineData.spaceLength = checkSpaceLength( &inAttributes );
             }
             
-            if( checkHasStopLength<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasEndLength<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
                 lineData.isStopLengthSpecified = true;
-                lineData.endLength = checkStopLength<ATTRIBUTES_TYPE>( &inAttributes );
+                lineData.endLength = checkEndLength<ATTRIBUTES_TYPE>( &inAttributes );
             }
             
             return lineData;
@@ -69,8 +69,7 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_SETFUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_SETFUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( spaceLength, SpaceLength, long double, 0.0L );
@@ -78,8 +77,8 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( dashLength, DashLength, long double, 0.0L );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_SETFUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         void setAttributesFromLineData( const api::LineData& inLineData, ATTRIBUTES_TYPE& outAttributes )
@@ -95,9 +94,9 @@ namespace mx
                 lookForAndSetSpaceLength( inLineData.spaceLength, &outAttributes );
             }
             
-            if( lookForAndSetHasLineStop( inLineData.lineHook != api::LineHook::unspecified, &outAttributes ) )
+            if( inLineData.lineHook != api::LineHook::unspecified )
             {
-                lookForAndSetLineStop( converter.convert( inLineData.lineHook ), &outAttributes );
+                lookForAndSetLineEnd( converter.convert( inLineData.lineHook ), &outAttributes );
             }
             
             if( lookForAndSetHasLineType( inLineData.lineType != api::LineType::unspecified, &outAttributes ) )
@@ -105,9 +104,9 @@ namespace mx
                 lookForAndSetLineType( converter.convert( inLineData.lineType ), &outAttributes );
             }
             
-            if( lookForAndSetHasStopLength( inLineData.isStopLengthSpecified, &outAttributes ) )
+            if( lookForAndSetHasEndLength( inLineData.isStopLengthSpecified, &outAttributes ) )
             {
-                lookForAndSetStopLength( inLineData.endLength, &outAttributes );
+                lookForAndSetEndLength( inLineData.endLength, &outAttributes );
             }
         }
     }
-- 
2.43.0


From 6ab0950566d2efc8f77577df367a7e9ce4b058c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 47/76] fix: position and print data of arpeggios and fermatas
 are read from the attributes, not from the pointer to them

---
 Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp    | 2 +-
 Sourcecode/private/mx/impl/FermataFunctions.cpp       | 4 ++--
 Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
index e84fe4f..a99dd7a 100644
--- a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
@@ -36,7 +36,7 @@ namespace mx
                 }
             }
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             return markData;
diff --git a/Sourcecode/private/mx/impl/FermataFunctions.cpp b/Sourcecode/private/mx/impl/FermataFunctions.cpp
index 3728bca..14f82b5 100644
--- a/Sourcecode/private/mx/impl/FermataFunctions.cpp
+++ b/Sourcecode/private/mx/impl/FermataFunctions.cpp
@@ -88,9 +88,9 @@ namespace mx
             // Unfortunately, without doing a lot of guess word, we can't
             // know whether the correct glyph is "above" or "below"
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             
             return markData;
         }
diff --git a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
index 0fa01a9..f1f9109 100644
--- a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
@@ -21,7 +21,7 @@ namespace mx
         {
             const auto& attr = myNonArpeggiate.getAttributes();
             api::MarkData markData{ api::MarkType::nonArpeggiate };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             return markData;
         }
-- 
2.43.0


From 2130f61f80211c13bcff796428f48b5de8dda43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 48/76] fix: PartReader reads a sharp in a displayed name

---
 Sourcecode/private/mx/impl/PartReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 5104091..44ec6b9 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -239,7 +239,7 @@ namespace mx
                     {
                         ss << "b"; // TODO - support accidental text correctly
                     }
-                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
                     {
                         ss << "#";
                     }
-- 
2.43.0


From be5d400e820ff91c8b6aa6a1d31a5e7c2cedde23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 49/76] fix: a mode other than major and minor is read as
 unsupported

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b9cc2a4..1d81c05 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -523,7 +523,7 @@ namespace mx
                     {
                         keyData.mode = api::KeyMode::minor;
                     }
-                    else if( coreMode == core::ModeEnum::minor )
+                    else
                     {
                         keyData.mode = api::KeyMode::unsupported;
                     }
-- 
2.43.0


From 2d18afccdbc28c4e728f4a6e16be86352009098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 50/76] fix: ends, lines and positions of brackets are written

---
 .../private/mx/impl/DirectionWriter.cpp       | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 57d1d11..62cc0d7 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -254,6 +254,23 @@ namespace mx
                 }
             }
             
+            for( const auto& item : myDirectionData.bracketStops )
+            {
+                auto outDirType = core::makeDirectionType();
+                this->addDirectionType( outDirType, directionPtr );
+                outDirType->setChoice( core::DirectionType::Choice::bracket );
+                auto& attr = *outDirType->getBracket()->getAttributes();
+                attr.type = core::StartStopContinue::stop;
+                
+                if( item.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ item.numberLevel };
+                }
+                
+                setAttributesFromPositionData( item.positionData, attr );
+            }
+            
             for( const auto& item : myDirectionData.bracketStarts )
             {
                 auto outDirType = core::makeDirectionType();
@@ -261,7 +278,11 @@ namespace mx
                 outDirType->setChoice( core::DirectionType::Choice::bracket );
                 auto outElement = outDirType->getBracket();
                 auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::start;
                 setAttributesFromSpannerStart( item, attr );
+                setAttributesFromPositionData( item.positionData, attr );
+                setAttributesFromPrintData( item.printData, attr );
+                setAttributesFromLineData( item.lineData, attr );
             }
 
             for( const auto& tempo : myDirectionData.tempos )
-- 
2.43.0


From 35b96e68e60b0e02f127fb3312a9fd4ab75980a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 51/76] fix: colors of segnos and codas are read

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index b92015c..9725ee4 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -343,6 +343,7 @@ namespace mx
                 api::SegnoData outSegno;
                 const auto& attr = *segnoPtr->getAttributes();
                 outSegno.positionData = getPositionData( attr );
+                outSegno.isColorSpecified = attr.hasColor;
                 outSegno.colorData = getColor( attr );
                 myOutDirectionData.segnos.emplace_back( std::move( outSegno ) );
             }
@@ -375,6 +376,7 @@ namespace mx
                 api::CodaData outCoda;
                 const auto& attr = *codaPtr->getAttributes();
                 outCoda.positionData = getPositionData( attr );
+                outCoda.isColorSpecified = attr.hasColor;
                 outCoda.colorData = getColor( attr );
                 myOutDirectionData.codas.emplace_back( std::move( outCoda ) );
             }
-- 
2.43.0


From 5f6126cd17810c11201f86d60756983ea8a586ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 52/76] fix: rehearsal marks, segnos and codas are written

---
 .../private/mx/impl/DirectionWriter.cpp       | 90 +++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 62cc0d7..8127354 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -354,6 +354,96 @@ namespace mx
                 }
             }
 
+            if( !myDirectionData.rehearsals.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::rehearsal );
+                bool isFirstAdded = false;
+
+                for( const auto& item : myDirectionData.rehearsals )
+                {
+                    auto outElement = core::makeRehearsal();
+                    auto& attr = *outElement->getAttributes();
+                    outElement->setValue( core::XsString{ item.text } );
+                    setAttributesFromPositionData( item.positionData, attr );
+
+                    if( item.isColorSpecified )
+                    {
+                        setAttributesFromColorData( item.colorData, attr );
+                    }
+
+                    outDirType->addRehearsal( outElement );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeRehearsal( outDirType->getRehearsalSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.segnos.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::segno );
+                bool isFirstAdded = false;
+
+                for( const auto& item : myDirectionData.segnos )
+                {
+                    auto outElement = core::makeSegno();
+                    auto& attr = *outElement->getAttributes();
+                    setAttributesFromPositionData( item.positionData, attr );
+
+                    if( item.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( item.colorData, attr );
+                    }
+
+                    outDirType->addSegno( outElement );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeSegno( outDirType->getSegnoSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.codas.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::coda );
+                bool isFirstAdded = false;
+
+                for( const auto& item : myDirectionData.codas )
+                {
+                    auto outElement = core::makeCoda();
+                    auto& attr = *outElement->getAttributes();
+                    setAttributesFromPositionData( item.positionData, attr );
+
+                    if( item.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( item.colorData, attr );
+                    }
+
+                    outDirType->addCoda( outElement );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeCoda( outDirType->getCodaSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
             if( myIsFirstDirectionTypeAdded )
             {
                 auto directionMdc = core::makeMusicDataChoice();
-- 
2.43.0


From fdeb4c71dd176ecd7d36985c90d0fba204107f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 53/76] fix: parentheses, brackets, cautionary and editorial
 marks of accidentals are written

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 18389e0..3f49b06 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -99,6 +99,31 @@ namespace mx
             {
                 myOutNote->setHasAccidental( true );
                 myOutNote->getAccidental()->setValue( myConverter.convert( myNoteData.pitchData.accidental ) );
+                auto& attr = *myOutNote->getAccidental()->getAttributes();
+
+                if( myNoteData.pitchData.isAccidentalParenthetical )
+                {
+                    attr.hasParentheses = true;
+                    attr.parentheses = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalBracketed )
+                {
+                    attr.hasBracket = true;
+                    attr.bracket = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalCautionary )
+                {
+                    attr.hasCautionary = true;
+                    attr.cautionary = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalEditorial )
+                {
+                    attr.hasEditorial = true;
+                    attr.editorial = core::YesNo::yes;
+                }
             }
             
             auto beamIndex = 0;
-- 
2.43.0


From 50ba664b0df8d469ef95892da051b599c4b2059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 54/76] fix: print data of notes is written, print-object
 included

---
 Sourcecode/private/mx/impl/NoteWriter.cpp   | 2 ++
 Sourcecode/private/mx/impl/PrintFunctions.h | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 3f49b06..d6ceadc 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -34,6 +34,7 @@
 #include "mx/core/elements/Octave.h"
 #include "mx/core/elements/Pitch.h"
 #include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/core/elements/Rest.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/Stem.h"
@@ -88,6 +89,7 @@ namespace mx
             NotationsWriter notationsWriter{ myNoteData, myCursor, myScoreWriter };
             auto& noteAttr = *myOutNote->getAttributes();
             impl::setAttributesFromPositionData(myNoteData.positionData, noteAttr);
+            impl::setAttributesFromPrintData(myNoteData.printData, noteAttr);
 
             auto notations = notationsWriter.getNotations();
             if( notations->getNotationsChoiceSet().size() > 0 )
diff --git a/Sourcecode/private/mx/impl/PrintFunctions.h b/Sourcecode/private/mx/impl/PrintFunctions.h
index 9410869..d2b476f 100644
--- a/Sourcecode/private/mx/impl/PrintFunctions.h
+++ b/Sourcecode/private/mx/impl/PrintFunctions.h
@@ -100,9 +100,10 @@ namespace mx
         template <typename ATTRIBUTES_TYPE>
         void setPrintObject( const api::Bool& inPrintObject, ATTRIBUTES_TYPE& outAttributes )
         {
-            if( !lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
+            if( lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
             {
-                lookForAndSetPrintObject( inPrintObject, &outAttributes );
+                Converter converter;
+                lookForAndSetPrintObject( converter.convert( inPrintObject ), &outAttributes );
             }
         }
         
@@ -130,6 +131,7 @@ namespace mx
             }
             
             setAttributesFromFontData( inPrintData.fontData, outAttributes );
+            setPrintObject( inPrintData.printObject, outAttributes );
         }
     }
 }
-- 
2.43.0


From 60aae4b8f44aa18be5021f6a5ade8f933d0a744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 55/76] fix: midi name and midi unpitched are written

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..3e872f7 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -166,6 +166,13 @@ namespace mx
                 midiGroup->setHasMidiDevice( true );
                 midiDevice.setValue( core::XsString{ myPartData.instrumentData.midiData.device } );
             }
+            if( myPartData.instrumentData.midiData.name.size() > 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiName( true );
+                midiInstrument.getMidiName()->setValue( core::XsString{ myPartData.instrumentData.midiData.name } );
+            }
             if( myPartData.instrumentData.midiData.bank >= 0 )
             {
                 addMidiElement = true;
@@ -187,6 +194,13 @@ namespace mx
                 midiInstrument.setHasMidiProgram( true );
                 midiInstrument.getMidiProgram()->setValue( core::Midi128{ myPartData.instrumentData.midiData.program } );
             }
+            if( myPartData.instrumentData.midiData.unpitched >= 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiUnpitched( true );
+                midiInstrument.getMidiUnpitched()->setValue( core::Midi128{ myPartData.instrumentData.midiData.unpitched } );
+            }
             if( myPartData.instrumentData.midiData.isElevationSpecified )
             {
                 addMidiElement = true;
-- 
2.43.0


From 819ad41675887b487f2f4c57cc20cedf0dfe5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 56/76] fix: the abbreviation of a part group is written

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 502f341..e4ac2b5 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -5,6 +5,7 @@
 #include "mx/core/elements/Creator.h"
 #include "mx/core/elements/Encoding.h"
 #include "mx/core/elements/GroupBarline.h"
+#include "mx/core/elements/GroupAbbreviation.h"
 #include "mx/core/elements/GroupName.h"
 #include "mx/core/elements/GroupSymbol.h"
 #include "mx/core/elements/Identification.h"
@@ -315,6 +316,12 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.abbreviation.size() > 0 )
+            {
+                mxGrp->setHasGroupAbbreviation( true );
+                mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From 1e6a4e0bfeea6f9899341718d4054927d6a48af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 57/76] fix: print-object of a chord degree is written

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 8127354..fb08f90 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -605,6 +605,12 @@ namespace mx
                         case api::ExtensionAlter::none: degree->getDegreeAlter()->setValue( core::Semitones{ 0.0 } ); break;
                     }
 
+                    if( extension.printObject != api::Bool::unspecified )
+                    {
+                        degree->getAttributes()->hasPrintObject = true;
+                        degree->getAttributes()->printObject = myConverter.convert( extension.printObject );
+                    }
+
                     grp->addDegree( degree );
                 }
 
-- 
2.43.0


From 79f994cccf73f447ea96f358009f399b4793d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 58/76] fix: number levels of wedges are written

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index fb08f90..a8c8de0 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -166,6 +166,12 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
                 attr.type = core::WedgeType::stop;
+
+                if( wedgeStop.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStop.numberLevel };
+                }
                 
                 if( wedgeStop.isSpreadSpecified )
                 {
@@ -189,6 +195,12 @@ namespace mx
                     attr.type = myConverter.convert( wedgeStart.wedgeType );
                 }
                 
+                if( wedgeStart.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStart.numberLevel };
+                }
+
                 if( wedgeStart.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
-- 
2.43.0


From a06125a59fa841ad6eee97d35353d300d4215d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 59/76] fix: positions of tuplets are written

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index f170f79..2f9e653 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -178,6 +178,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::stop;
+                setAttributesFromPositionData( tupletStop.positionData, *tuplet->getAttributes() );
                 
                 if( tupletStop.numberLevel > 0 )
                 {
@@ -193,6 +194,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::start;
+                setAttributesFromPositionData( tupletStart.positionData, *tuplet->getAttributes() );
                 tuplet->setHasTupletActual( true );
                 tuplet->setHasTupletNormal( true );
 
-- 
2.43.0


From f5f0cee1d37d1c925689705fc32ca6a56e850746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 60/76] fix: a tempo given as text is written instead of
 refused

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index a8c8de0..b2c92d5 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -299,9 +299,9 @@ namespace mx
 
             for( const auto& tempo : myDirectionData.tempos )
             {
-                if( tempo.tempoType != api::TempoType::beatsPerMinute )
+                if( tempo.tempoType != api::TempoType::beatsPerMinute && tempo.tempoType != api::TempoType::tempoText )
                 {
-                    MX_THROW( "Only api::TempoType::beatsPerMinute is supported, others are not implemented" );
+                    MX_THROW( "Only api::TempoType::beatsPerMinute and tempoText are supported, others are not implemented" );
                 }
                 
                 auto outDirType = core::makeDirectionType();
@@ -324,7 +324,8 @@ namespace mx
                 auto pmobuc = bpm->getPerMinuteOrBeatUnitChoice();
                 pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::perMinute );
                 auto pm = pmobuc->getPerMinute();
-                auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
+                const bool isText = tempo.tempoType == api::TempoType::tempoText;
+                auto str = isText ? tempo.tempoText.tempoText : std::to_string( tempo.beatsPerMinute.beatsPerMinute );
                 pm->setValue( core::XsString{ str } );
                 //auto& attr = *outElement->getAttributes();
                 //setAttributesFromSpannerStart( item, attr );
-- 
2.43.0


From 5a9d2aa299e057ea5025f549d07a567587f3d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 61/76] fix: multi-measure rests are written

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp    |  5 +++++
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 10 ++++++++++
 Sourcecode/private/mx/impl/PropertiesWriter.h   |  1 +
 3 files changed, 16 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a196952..ee0ff37 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -224,6 +224,11 @@ namespace mx
             {
                 myPropertiesWriter->writeTime( myMeasureData.timeSignature );
             }
+
+            if( myMeasureData.multiMeasureRest > 0 )
+            {
+                myPropertiesWriter->writeMultiMeasureRest( myMeasureData.multiMeasureRest );
+            }
             
             int localStaffCounter = 0;
             
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 12e4c3c..ed35dd1 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -217,6 +217,16 @@ namespace mx
         }
         
         
+        void PropertiesWriter::writeMultiMeasureRest( int value )
+        {
+            auto measureStyle = core::makeMeasureStyle();
+            auto choice = measureStyle->getMeasureStyleChoice();
+            choice->setChoice( core::MeasureStyleChoice::Choice::multipleRest );
+            choice->getMultipleRest()->setValue( core::PositiveIntegerOrEmpty{ core::PositiveInteger{ value } } );
+            myProperties->addMeasureStyle( measureStyle );
+        }
+        
+        
         void PropertiesWriter::writeTime( const api::TimeSignatureData& value )
         {
             auto time = core::makeTime();
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.h b/Sourcecode/private/mx/impl/PropertiesWriter.h
index 5ca3093..7a664b9 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.h
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.h
@@ -58,6 +58,7 @@ namespace mx
             static void writeNonTraditionalKey( const api::KeyData& inKeyData, mx::core::KeyPtr& ioKey );
             void writeTime( const api::TimeSignatureData& value );
             void writeNumStaves( int value );
+            void writeMultiMeasureRest( int value );
             void writeClef( int staffIndex, const api::ClefData& inClefData );
             void writeTranspose( const api::TransposeData& inTransposeData );
 
-- 
2.43.0


From c789dc03fc6f67a17d951897b68cb23f082ea4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 62/76] fix: colors of words and rehearsal marks are read and
 written

---
 Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp | 5 +++++
 Sourcecode/private/mx/core/elements/RehearsalAttributes.h   | 3 +++
 Sourcecode/private/mx/core/elements/WordsAttributes.cpp     | 5 +++++
 Sourcecode/private/mx/core/elements/WordsAttributes.h       | 3 +++
 Sourcecode/private/mx/impl/DirectionReader.cpp              | 2 ++
 Sourcecode/private/mx/impl/DirectionWriter.cpp              | 4 ++--
 6 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp b/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
index 5217fff..9649451 100644
--- a/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
@@ -20,6 +20,7 @@ namespace mx
         ,fontStyle( FontStyle::normal )
         ,fontSize( FontSize{ CssFontSize::medium } )
         ,fontWeight( FontWeight::normal )
+        ,color()
         ,halign()
         ,underline()
         ,overline()
@@ -39,6 +40,7 @@ namespace mx
         ,hasFontStyle( false )
         ,hasFontSize( false )
         ,hasFontWeight( false )
+        ,hasColor( false )
         ,hasHalign( false )
         ,hasUnderline( false )
         ,hasOverline( false )
@@ -63,6 +65,7 @@ namespace mx
             hasFontStyle ||
             hasFontSize ||
             hasFontWeight ||
+            hasColor ||
             hasHalign ||
             hasUnderline ||
             hasOverline ||
@@ -89,6 +92,7 @@ namespace mx
                 streamAttribute( os, fontStyle, "font-style", hasFontStyle );
                 streamAttribute( os, fontSize, "font-size", hasFontSize );
                 streamAttribute( os, fontWeight, "font-weight", hasFontWeight );
+                streamAttribute( os, color, "color", hasColor );
                 streamAttribute( os, halign, "halign", hasHalign );
                 streamAttribute( os, underline, "underline", hasUnderline );
                 streamAttribute( os, overline, "overline", hasOverline );
@@ -123,6 +127,7 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, fontStyle, hasFontStyle, "font-style", &parseFontStyle ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontSize, hasFontSize, "font-size" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontWeight, hasFontWeight, "font-weight", &parseFontWeight ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, halign, hasHalign, "halign", &parseLeftCenterRight ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, underline, hasUnderline, "underline" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, overline, hasOverline, "overline" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/RehearsalAttributes.h b/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
index 15bb0fd..fe7ef68 100644
--- a/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
+++ b/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
@@ -6,6 +6,7 @@
 
 #include "mx/core/ForwardDeclare.h"
 #include "mx/core/AttributesInterface.h"
+#include "mx/core/Color.h"
 #include "mx/core/CommaSeparatedText.h"
 #include "mx/core/Decimals.h"
 #include "mx/core/Enums.h"
@@ -40,6 +41,7 @@ namespace mx
             FontStyle fontStyle;
             FontSize fontSize;
             FontWeight fontWeight;
+            Color color;
             LeftCenterRight halign;
             NumberOfLines underline;
             NumberOfLines overline;
@@ -59,6 +61,7 @@ namespace mx
             bool hasFontStyle;
             bool hasFontSize;
             bool hasFontWeight;
+            bool hasColor;
             bool hasHalign;
             bool hasUnderline;
             bool hasOverline;
diff --git a/Sourcecode/private/mx/core/elements/WordsAttributes.cpp b/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
index fc18220..513ddff 100644
--- a/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
@@ -20,6 +20,7 @@ namespace mx
         ,fontStyle( FontStyle::normal )
         ,fontSize( FontSize{ CssFontSize::medium } )
         ,fontWeight( FontWeight::normal )
+        ,color()
         ,halign()
         ,underline()
         ,overline()
@@ -39,6 +40,7 @@ namespace mx
         ,hasFontStyle( false )
         ,hasFontSize( false )
         ,hasFontWeight( false )
+        ,hasColor( false )
         ,hasHalign( false )
         ,hasUnderline( false )
         ,hasOverline( false )
@@ -63,6 +65,7 @@ namespace mx
             hasFontStyle ||
             hasFontSize ||
             hasFontWeight ||
+            hasColor ||
             hasHalign ||
             hasUnderline ||
             hasOverline ||
@@ -89,6 +92,7 @@ namespace mx
                 streamAttribute( os, fontStyle, "font-style", hasFontStyle );
                 streamAttribute( os, fontSize, "font-size", hasFontSize );
                 streamAttribute( os, fontWeight, "font-weight", hasFontWeight );
+                streamAttribute( os, color, "color", hasColor );
                 streamAttribute( os, halign, "halign", hasHalign );
                 streamAttribute( os, underline, "underline", hasUnderline );
                 streamAttribute( os, overline, "overline", hasOverline );
@@ -123,6 +127,7 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, fontStyle, hasFontStyle, "font-style", &parseFontStyle ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontSize, hasFontSize, "font-size" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontWeight, hasFontWeight, "font-weight", &parseFontWeight ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, halign, hasHalign, "halign", &parseLeftCenterRight ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, underline, hasUnderline, "underline" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, overline, hasOverline, "overline" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/WordsAttributes.h b/Sourcecode/private/mx/core/elements/WordsAttributes.h
index d1bd5ef..aa09c01 100644
--- a/Sourcecode/private/mx/core/elements/WordsAttributes.h
+++ b/Sourcecode/private/mx/core/elements/WordsAttributes.h
@@ -6,6 +6,7 @@
 
 #include "mx/core/ForwardDeclare.h"
 #include "mx/core/AttributesInterface.h"
+#include "mx/core/Color.h"
 #include "mx/core/CommaSeparatedText.h"
 #include "mx/core/Decimals.h"
 #include "mx/core/Enums.h"
@@ -40,6 +41,7 @@ namespace mx
             FontStyle fontStyle;
             FontSize fontSize;
             FontWeight fontWeight;
+            Color color;
             LeftCenterRight halign;
             NumberOfLines underline;
             NumberOfLines overline;
@@ -59,6 +61,7 @@ namespace mx
             bool hasFontStyle;
             bool hasFontSize;
             bool hasFontWeight;
+            bool hasColor;
             bool hasHalign;
             bool hasUnderline;
             bool hasOverline;
diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 9725ee4..454bb25 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -326,6 +326,7 @@ namespace mx
                 const auto& attr = *rehearsalPtr->getAttributes();
                 outRehearsal.text = rehearsalPtr->getValue().getValue();
                 outRehearsal.positionData = getPositionData( attr );
+                outRehearsal.isColorSpecified = attr.hasColor;
                 outRehearsal.colorData = getColor( attr );
                 myOutDirectionData.rehearsals.emplace_back( std::move( outRehearsal ) );
             }
@@ -360,6 +361,7 @@ namespace mx
                 const auto& attr = *wordPtr->getAttributes();
                 outWords.text = wordPtr->getValue().getValue();
                 outWords.positionData = getPositionData( attr );
+                outWords.isColorSpecified = attr.hasColor;
                 outWords.colorData = getColor( attr );
                 outWords.fontData = getFontData( attr );
                 myOutDirectionData.words.emplace_back( std::move( outWords ) );
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index b2c92d5..48a720a 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -355,8 +355,7 @@ namespace mx
 
                     if( wordsData.isColorSpecified )
                     {
-                        // TODO - oops color is missing from words
-//                        attr.hasColor = true;
+                        attr.hasColor = true;
                         setAttributesFromColorData( wordsData.colorData, attr );
                     }
                 }
@@ -382,6 +381,7 @@ namespace mx
 
                     if( item.isColorSpecified )
                     {
+                        attr.hasColor = true;
                         setAttributesFromColorData( item.colorData, attr );
                     }
 
-- 
2.43.0


From d3b5141bdd828cd113662e4d40371ef5ea38c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 63/76] fix: a decimal that is too big is recognised before it
 is converted

---
 Sourcecode/private/mx/core/Decimals.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 8c8de6a..4118984 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -66,16 +66,15 @@ namespace mx
                 myIsNegative = false;
             }
 
-            const auto integer = static_cast<decltype( myInteger )>( inValue );
-            const bool isTooBig = integer > myMaxExpressibleInteger;
-
-            if( isTooBig )
+            // the comparison comes first because converting a number that is too big is undefined
+            if( !( inValue < static_cast<DecimalType>( myMaxExpressibleInteger ) + 1 ) )
             {
                 myInteger = myMaxExpressibleInteger;
                 myDecimal = myMaxExpressibleDecimal;
                 return;
             }
 
+            const auto integer = static_cast<decltype( myInteger )>( inValue );
             const DecimalType decimalPartAsFloat = inValue - static_cast<DecimalType>( integer );
             const auto powerMultiplierAsFloat = std::pow( static_cast<DecimalType>( 10 ), static_cast<DecimalType>( getMaxDecimalDigits() ) );
             const auto powerMultiplier = static_cast<uint64_t>( std::ceil( powerMultiplierAsFloat - POINT_FIVE ) );
-- 
2.43.0


From bd3ce1e089ebb35a6ce7976a453bf7ae8a8d7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 64/76] fix: a null XElementIterator has no processing
 instruction setting

---
 .../mx/ezxml/src/private/private/XElementIterator.cpp  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
index d5b2550..6515dfc 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
@@ -151,6 +151,11 @@ namespace ezxml
     bool
     XElementIterator::getSkipProcessingInstructions() const
     {
+        if( !myImpl )
+        {
+            return false;
+        }
+
         return myImpl->getSkipProcessingInstructions();
     }
 
@@ -158,7 +163,10 @@ namespace ezxml
     void
     XElementIterator::setSkipProcessingInstructions( bool inValue )
     {
-        myImpl->setSkipProcessingInstructions( inValue );
+        if( myImpl )
+        {
+            myImpl->setSkipProcessingInstructions( inValue );
+        }
     }
 
 
-- 
2.43.0


From 39877304199cf0dbe8f3d62459872c2746cf607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 65/76] fix: numbers that do not fit an int are limited instead
 of converted

---
 Sourcecode/private/mx/impl/Converter.cpp      |  5 ++--
 Sourcecode/private/mx/impl/Cursor.cpp         |  5 ++--
 Sourcecode/private/mx/impl/CurveFunctions.h   |  3 ++-
 .../private/mx/impl/DirectionReader.cpp       |  4 ++--
 Sourcecode/private/mx/impl/MeasureReader.cpp  |  3 ++-
 Sourcecode/private/mx/impl/ScoreReader.cpp    |  3 ++-
 Sourcecode/private/mx/utility/Round.h         | 23 ++++++++++++++++++-
 7 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 3fa572b..f4c2e47 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -6,6 +6,7 @@
 #include "mx/core/elements/Diatonic.h"
 #include "mx/core/elements/OctaveChange.h"
 #include "mx/impl/Converter.h"
+#include "mx/utility/Round.h"
 #include "mx/utility/Throw.h"
 
 #include <algorithm>
@@ -1833,7 +1834,7 @@ namespace mx
         std::pair<int, double> Converter::convertToSemitonesAndCents( mx::core::DecimalType xmlAlter )
         {
             double myCents = 0.0;
-            const auto intAlter = static_cast<int>( xmlAlter );
+            const auto intAlter = mx::utility::truncateTo<mx::core::DecimalType, int>( xmlAlter );
             const auto micro = xmlAlter - static_cast<mx::core::DecimalType> ( intAlter );
             const auto microDistance = std::abs( micro );
             if( microDistance >= 0.000000000001 )
@@ -1930,7 +1931,7 @@ namespace mx
             // we do our best if the transpose element is used incorrectly, or the diatonic element (which is 
             // optional in musicxml) is not present. TransposeData does away with the octave-change concept and
             // requires use of the diatonic value, so we translate as necessary.
-            const int specifiedChromatic = static_cast<int>( inTranspose.getChromatic()->getValue().getValue() );
+            const int specifiedChromatic = mx::utility::truncateTo<mx::core::DecimalType, int>( inTranspose.getChromatic()->getValue().getValue() );
             std::optional<int> specifiedOctave;
             if( inTranspose.getHasOctaveChange() )
             {
diff --git a/Sourcecode/private/mx/impl/Cursor.cpp b/Sourcecode/private/mx/impl/Cursor.cpp
index a0e832a..fa27963 100644
--- a/Sourcecode/private/mx/impl/Cursor.cpp
+++ b/Sourcecode/private/mx/impl/Cursor.cpp
@@ -4,6 +4,7 @@
 
 #include "mx/impl/Cursor.h"
 #include "mx/core/elements/Duration.h"
+#include "mx/utility/Round.h"
 
 namespace mx
 {
@@ -57,13 +58,13 @@ namespace mx
         {
             if( this->ticksPerQuarter == this->getGlobalTicksPerQuarter() )
             {
-                return static_cast<int>( std::ceil( durationValue - 0.5L ) );
+                return mx::utility::roundTo<long double, int>( durationValue );
             }
             
             const long double currentTicksPerQuarter = static_cast<long double>( this->ticksPerQuarter );
             const long double globalTicksPerQuarter = static_cast<long double>( this->getGlobalTicksPerQuarter() );
             const long double convertedVal = durationValue * ( globalTicksPerQuarter / currentTicksPerQuarter );
-            return static_cast<int>( std::ceil( convertedVal - 0.5L ) );
+            return mx::utility::roundTo<long double, int>( convertedVal );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/CurveFunctions.h b/Sourcecode/private/mx/impl/CurveFunctions.h
index 6d39800..f0e079a 100644
--- a/Sourcecode/private/mx/impl/CurveFunctions.h
+++ b/Sourcecode/private/mx/impl/CurveFunctions.h
@@ -9,6 +9,7 @@
 #include "mx/impl/PositionFunctions.h"
 #include "mx/impl/LineFunctions.h"
 #include "mx/impl/PrintFunctions.h"
+#include "mx/utility/Round.h"
 
 namespace mx
 {
@@ -36,7 +37,7 @@ namespace mx
             if( inAttributes.hasBezierOffset )
             {
                 p.isBezierOffsetSpecified = true;
-                p.bezierOffset = static_cast<int>( std::ceil( inAttributes.bezierOffset.getValue() - 0.5 ) );
+                p.bezierOffset = mx::utility::roundTo<core::DecimalType, int>( inAttributes.bezierOffset.getValue() );
             }
             
             return p;
diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 454bb25..f71930c 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -123,7 +123,7 @@ namespace mx
             {
                 if( myDirection->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myDirection->getOffset()->getValue().getValue() - 0.5 ) );
+                    const auto offset = mx::utility::roundTo<core::DecimalType, int>( myDirection->getOffset()->getValue().getValue() );
                     myOutDirectionData.tickTimePosition += offset;
                 }
             }
@@ -131,7 +131,7 @@ namespace mx
             {
                 if( myHarmony->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myHarmony->getOffset()->getValue().getValue() - 0.5 ) );
+                    const auto offset = mx::utility::roundTo<core::DecimalType, int>( myHarmony->getOffset()->getValue().getValue() );
                     myOutDirectionData.tickTimePosition += offset;
                 }
             }
diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 1d81c05..184355b 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -72,6 +72,7 @@
 #include "mx/impl/NoteFunctions.h"
 #include "mx/impl/NoteReader.h"
 #include "mx/impl/TimeReader.h"
+#include "mx/utility/Round.h"
 #include "mx/utility/Throw.h"
 
 #include <set>
@@ -437,7 +438,7 @@ namespace mx
             if( inMxProperties.getHasDivisions() )
             {
                 const auto newDivisionsValueDecimal = inMxProperties.getDivisions()->getValue().getValue();
-                myCurrentCursor.ticksPerQuarter = static_cast<int>(std::ceil(newDivisionsValueDecimal - 0.5));
+                myCurrentCursor.ticksPerQuarter = mx::utility::roundTo<core::DecimalType, int>( newDivisionsValueDecimal );
             }
             
             // TODO - continue work on measure numbering and style etc
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5ffa138..cc2b189 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -58,6 +58,7 @@
 #include "mx/impl/PageTextFunctions.h"
 #include "mx/impl/PartReader.h"
 #include "mx/impl/TimeReader.h"
+#include "mx/utility/Round.h"
 #include "mx/utility/StringToInt.h"
 
 namespace mx
@@ -611,7 +612,7 @@ namespace mx
                         
                         const auto& divisions = *props.getDivisions();
                         const auto tempDiv = divisions.getValue().getValue();
-                        const int tempDivInt = static_cast<int>( std::ceil( tempDiv - 0.5 ) );
+                        const int tempDivInt = mx::utility::roundTo<core::DecimalType, int>( tempDiv );
                         if( tempDivInt > 0 )
                         {
                             foundDivisions.insert( tempDivInt );
diff --git a/Sourcecode/private/mx/utility/Round.h b/Sourcecode/private/mx/utility/Round.h
index 9d13fa4..3bb27bf 100644
--- a/Sourcecode/private/mx/utility/Round.h
+++ b/Sourcecode/private/mx/utility/Round.h
@@ -4,14 +4,35 @@
 
 #pragma once
 
+#include <cmath>
+#include <limits>
+
 namespace mx
 {
     namespace utility
     {
+        // drops the fractional part, a value that OUTPUT cannot hold becomes the nearest one that it can hold
+        template<typename INPUT, typename OUTPUT>
+        inline OUTPUT truncateTo( INPUT inValue )
+        {
+            if( !( inValue > static_cast<INPUT>( std::numeric_limits<OUTPUT>::min() ) ) )
+            {
+                return std::numeric_limits<OUTPUT>::min();
+            }
+
+            if( !( inValue < static_cast<INPUT>( std::numeric_limits<OUTPUT>::max() ) ) )
+            {
+                return std::numeric_limits<OUTPUT>::max();
+            }
+
+            return static_cast<OUTPUT>( inValue );
+        }
+
+
         template<typename INPUT, typename OUTPUT>
         inline OUTPUT roundTo( INPUT inValue )
         {
-            return static_cast<OUTPUT>( std::ceil( inValue - static_cast<INPUT>( 0.5 ) ) );
+            return truncateTo<INPUT, OUTPUT>( std::ceil( inValue - static_cast<INPUT>( 0.5 ) ) );
         }
     }
 }
-- 
2.43.0


From 928faa7289100dd9289bfa7c62f77dbd5ca6552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 66/76] fix: converting parts of unequal length does not read
 past the end of the shorter

---
 Sourcecode/private/mx/core/ScoreConversions.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..5e2132a 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -79,11 +79,13 @@ namespace mx
                     });
                     if ( partIter != inScore->getPartwisePartSet().cend() )
                     {
-                        auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
-                        /* Find the Correct Measure Within The Part */
-                        for( Intz x = 0;
-                            x < currentMeasureIndex;
-                            ++measureIter, ++x ) {}
+                        /* Find the Correct Measure Within The Part, a shorter part has none */
+                        const auto& measures = (*partIter)->getPartwiseMeasureSet();
+                        if ( currentMeasureIndex >= measures.size() )
+                        {
+                            continue;
+                        }
+                        const auto& measure = measures[currentMeasureIndex];
                         
                         /* Create and add the Part Music to the outer loop's Measure */
                         TimewisePartPtr newPart;
@@ -98,8 +100,8 @@ namespace mx
                             newMeasure->addTimewisePart( newPart );
                         }
                         newPart->getAttributes()->id = (*partIter)->getAttributes()->id;
-                        newPart->setMusicDataGroup( (*measureIter)->getMusicDataGroup() );
-                        newMeasure->setAttributes( (*measureIter)->getAttributes() );
+                        newPart->setMusicDataGroup( measure->getMusicDataGroup() );
+                        newMeasure->setAttributes( measure->getAttributes() );
                     }
                 }
             }
-- 
2.43.0


From f5e9d3fb74e44fab05c6ebc9fffa0c723507ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 67/76] fix: durations are not divided by divisions that round
 to zero

---
 Sourcecode/private/mx/impl/Cursor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Cursor.cpp b/Sourcecode/private/mx/impl/Cursor.cpp
index fa27963..2565bdb 100644
--- a/Sourcecode/private/mx/impl/Cursor.cpp
+++ b/Sourcecode/private/mx/impl/Cursor.cpp
@@ -56,7 +56,8 @@ namespace mx
 
         int Cursor::convertDurationToGlobalTickScale( long double durationValue ) const
         {
-            if( this->ticksPerQuarter == this->getGlobalTicksPerQuarter() )
+            // divisions that round to zero cannot be scaled
+            if( this->ticksPerQuarter == 0 || this->ticksPerQuarter == this->getGlobalTicksPerQuarter() )
             {
                 return mx::utility::roundTo<long double, int>( durationValue );
             }
-- 
2.43.0


From ac1edfe78fd3a2e971f03ce446960dcff12d3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 68/76] fix: a document without a root element is reported
 instead of followed

---
 Sourcecode/private/mx/core/Document.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Document.cpp b/Sourcecode/private/mx/core/Document.cpp
index c369e54..3c031f3 100644
--- a/Sourcecode/private/mx/core/Document.cpp
+++ b/Sourcecode/private/mx/core/Document.cpp
@@ -162,13 +162,17 @@ namespace mx
         bool Document::fromXDoc( std::ostream& messages, const ::ezxml::XDoc& inXDoc )
         {
             auto root = inXDoc.getRoot();
-            if( inXDoc.getRoot()->getName() == "score-partwise" )
+            if( !root )
+            {
+                MX_THROW( "bad input - the document has no root element" );
+            }
+            else if( root->getName() == "score-partwise" )
             {
                 myChoice = DocumentChoice::partwise;
                 myScorePartwise = makeScorePartwise();
                 return myScorePartwise->fromXElement( messages, *root );
             }
-            else if( inXDoc.getRoot()->getName() == "score-timewise" )
+            else if( root->getName() == "score-timewise" )
             {
                 myChoice = DocumentChoice::timewise;
                 myScoreTimewise = makeScoreTimewise();
-- 
2.43.0


From 35fb756e2089af9bcf7ea82c963e1cbdd0d1e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 69/76] fix: numbers in documents do not depend on the global
 locale

---
 Sourcecode/private/mx/core/Color.cpp          | 24 +++++++++----------
 .../core/CommaSeparatedPositiveIntegers.cpp   |  6 +++--
 Sourcecode/private/mx/core/Date.cpp           | 13 +++++++---
 Sourcecode/private/mx/core/Decimals.cpp       |  4 +++-
 Sourcecode/private/mx/core/Integers.cpp       |  4 +++-
 .../private/mx/impl/LayoutFunctions.cpp       |  2 +-
 6 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/core/Color.cpp b/Sourcecode/private/mx/core/Color.cpp
index 6f1f60d..8a73e5b 100644
--- a/Sourcecode/private/mx/core/Color.cpp
+++ b/Sourcecode/private/mx/core/Color.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/core/Color.h"
+#include <locale>
 #include <sstream>
 #include <iomanip>
 
@@ -143,6 +144,7 @@ namespace mx
             {
                 IntType val = 0;
                 std::stringstream ss( str.substr( static_cast<size_t>( startpos ), 2 ) );
+                ss.imbue( std::locale::classic() );
                 ss << std::hex;
                 ss << std::uppercase;
                 ss >> val;
@@ -241,22 +243,18 @@ namespace mx
         }
 		std::ostream& toStream( std::ostream& os, const Color& value )
         {
-            auto flagsval = os.flags();
-            auto fillval = os.fill();
-            auto widthval = os.width();
-            os << "#";
-            
+            std::stringstream ss;
+            ss.imbue( std::locale::classic() );
+            ss << "#";
+
             if ( value.getColorType() == Color::ColorType::ARGB )
             {
-                os << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getAlpha();
+                ss << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getAlpha();
             }
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getRed();
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getGreen();
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getBlue();
-            os.flags( flagsval );
-            os.width( widthval );
-            os.flags( flagsval );
-            os.fill( fillval );
+            ss  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getRed();
+            ss  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getGreen();
+            ss  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getBlue();
+            os << ss.str();
             return os;
         }
 		std::ostream& operator<<( std::ostream& os, const Color& value )
diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index 550d048..4da5a93 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -4,6 +4,7 @@
 
 #include "mx/core/CommaSeparatedPositiveIntegers.h"
 #include "mx/core/StringUtils.h"
+#include <locale>
 
 namespace mx
 {
@@ -88,6 +89,7 @@ namespace mx
                 if ( token.length() > 0 )
                 {
                     std::stringstream ss( token );
+                    ss.imbue( std::locale::classic() );
                     int value = 1;
                     ss >> value;
                     if ( value > 0 )
@@ -118,7 +120,7 @@ namespace mx
             {
                 if( isfirst )
                 {
-                    os << x;
+                    os << std::to_string( x );
                     isfirst = false;
                 }
                 else
@@ -128,7 +130,7 @@ namespace mx
                     {
                         os << " ";
                     }
-                    os << x;
+                    os << std::to_string( x );
                 }
             }
             return os;
diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 2f7b270..75a16a5 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/core/Date.h"
+#include <locale>
 #include <sstream>
 #include <ctime>
 
@@ -146,7 +147,9 @@ namespace mx
             bool parseStringYear( const std::string& value_in, int& year_out )
             {
                 year_out = -1;
-                std::stringstream( value_in.substr( 0, 4 ) ) >> year_out;
+                std::stringstream ss( value_in.substr( 0, 4 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> year_out;
                 bool success = false;
                 if ( year_out >= 1 && year_out <= 9999 )
                 {
@@ -159,7 +162,9 @@ namespace mx
             bool parseStringMonth( const std::string& value_in, int& month_out )
             {
                 month_out = -1;
-                std::stringstream( value_in.substr( 5, 2 ) ) >> month_out;
+                std::stringstream ss( value_in.substr( 5, 2 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> month_out;
                 bool success = false;
                 if ( month_out >= 1 && month_out <= 12 )
                 {
@@ -172,7 +177,9 @@ namespace mx
             bool parseStringDay( const std::string& value_in, int& day_out )
             {
                 day_out = -1;
-                std::stringstream( value_in.substr( 8, 2 ) ) >> day_out;
+                std::stringstream ss( value_in.substr( 8, 2 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> day_out;
                 bool success = false;
                 if ( day_out >= 1 && day_out <= 31 )
                 {
diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 4118984..ab821a7 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -10,6 +10,7 @@
 
 // std
 #include <cmath>
+#include <locale>
 #include <sstream>
 
 namespace mx
@@ -125,7 +126,7 @@ namespace mx
                 os << "-";
             }
 
-            os << myInteger;
+            os << std::to_string( myInteger );
 
             if( myDecimal == 0 )
             {
@@ -300,6 +301,7 @@ namespace mx
         bool Decimal::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             DecimalType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
diff --git a/Sourcecode/private/mx/core/Integers.cpp b/Sourcecode/private/mx/core/Integers.cpp
index c13b327..57f4799 100644
--- a/Sourcecode/private/mx/core/Integers.cpp
+++ b/Sourcecode/private/mx/core/Integers.cpp
@@ -6,6 +6,7 @@
 #include "mx/core/Integers.h"
 
 // std
+#include <locale>
 #include <sstream>
 
 namespace mx
@@ -37,6 +38,7 @@ namespace mx
         bool Integer::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             IntType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
@@ -55,7 +57,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const Integer& value )
         {
-            return os << value.getValue();
+            return os << std::to_string( value.getValue() );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..76d120c 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -240,7 +240,7 @@ namespace mx
                 {
                     const auto oa = core::makeOtherAppearance();
                     oa->getAttributes()->type = appearanceData.appearanceSubType;
-                    oa->setValue( core::XsString{ std::to_string( appearanceData.value ) } );
+                    oa->setValue( core::XsString{ core::Decimal{ appearanceData.value }.toString() } );
                     outScoreHeaderGroup.setHasDefaults( true );
                     outScoreHeaderGroup.getDefaults()->setHasAppearance( true );
                     outScoreHeaderGroup.getDefaults()->getAppearance()->addOtherAppearance( oa );
-- 
2.43.0


From 415fcc39abd0700a0518ed16a4943cac6f8776a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 70/76] fix: ids of instruments without one do not depend on
 earlier documents

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 3e872f7..03a59a5 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -46,7 +46,6 @@
 #include "mx/impl/MeasureWriter.h"
 #include "mx/impl/MeasureCursor.h"
 #include "mx/impl/ScoreWriter.h"
-#include "mx/api/DocumentManager.h"
 
 #include <sstream>
 
@@ -230,10 +229,7 @@ namespace mx
             {
                 if( myPartData.instrumentData.uniqueId.size() == 0 )
                 {
-                    std::stringstream ss;
-                    ss << "ID";
-                    ss << api::DocumentManager::getInstance().getUniqueId();
-                    scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
+                    scoreIntstrument->getAttributes()->id = core::XsID{ "ID" + myPartData.uniqueId };
                 }
                 else
                 {
-- 
2.43.0


From 345d9e2905e02611fde633c0258c40b1bfbb6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 71/76] fix: every public header includes what it uses

---
 Sourcecode/include/mx/api/ApiEquality.h   | 3 +++
 Sourcecode/include/mx/api/PartGroupData.h | 2 ++
 Sourcecode/include/mx/api/RehearsalData.h | 1 +
 3 files changed, 6 insertions(+)

diff --git a/Sourcecode/include/mx/api/ApiEquality.h b/Sourcecode/include/mx/api/ApiEquality.h
index 5452b8b..6ba6935 100644
--- a/Sourcecode/include/mx/api/ApiEquality.h
+++ b/Sourcecode/include/mx/api/ApiEquality.h
@@ -3,6 +3,9 @@
 // Distributed under the MIT License
 
 #pragma once
+
+#include "mx/api/ApiCommon.h"
+
 #include <algorithm>
 #include <ostream>
 #include <vector>
diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 294ff38..b7ea95b 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include "mx/api/ApiCommon.h"
+
 #include <string>
 #include <vector>
 
diff --git a/Sourcecode/include/mx/api/RehearsalData.h b/Sourcecode/include/mx/api/RehearsalData.h
index 4d21bc5..9b611b1 100644
--- a/Sourcecode/include/mx/api/RehearsalData.h
+++ b/Sourcecode/include/mx/api/RehearsalData.h
@@ -6,6 +6,7 @@
 
 #include "mx/api/ApiCommon.h"
 #include "mx/api/ColorData.h"
+#include "mx/api/FontData.h"
 #include "mx/api/PositionData.h"
 
 namespace mx
-- 
2.43.0


From 30826b4e75b5a743e6e6aef896a52aed151886ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 72/76] fix: assigning an empty XML iterator makes the target
 empty

---
 .../mx/ezxml/src/private/private/XAttributeIterator.cpp       | 4 ++++
 .../private/mx/ezxml/src/private/private/XElementIterator.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp b/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
index 20de4bc..18e26c2 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
@@ -35,6 +35,10 @@ namespace ezxml
         {
             myImpl = other.myImpl->clone();
         }
+        else
+        {
+            myImpl = nullptr;
+        }
         return *this;
     }
 
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
index 6515dfc..b7ee9b6 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
@@ -35,6 +35,10 @@ namespace ezxml
         {
             myImpl = other.myImpl->clone();
         }
+        else
+        {
+            myImpl = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From f0da63dacf5167297df5df25d2a4fc6d9be12d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 73/76] fix: a part given only an instrument sound writes its
 score-instrument

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 03a59a5..e647368 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -143,6 +143,7 @@ namespace mx
             
             if( myPartData.instrumentData.soundID != api::SoundID::unspecified && myPartData.instrumentData.soundID != api::SoundID::errorBadString )
             {
+                addScoreInstrument = true;
                 scoreIntstrument->setHasInstrumentSound( true );
                 Converter c;
                 scoreIntstrument->getInstrumentSound()->setValue( c.convert( myPartData.instrumentData.soundID ) );
-- 
2.43.0


From 2069ff8d3fe3edbe938d35a1c9323763e105650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 74/76] fix: a direction with chords or rehearsal marks is not
 empty

---
 Sourcecode/include/mx/api/DirectionData.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index a612bbc..a8a9a2e 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -101,8 +101,10 @@ namespace mx
             directionData.ottavaStarts.size() == 0 &&
             directionData.ottavaStops.size() == 0 &&
             directionData.words.size() == 0 &&
+            directionData.chords.size() == 0 &&
             directionData.segnos.size() == 0 &&
-            directionData.codas.size() == 0;
+            directionData.codas.size() == 0 &&
+            directionData.rehearsals.size() == 0;
         }
         
         MXAPI_EQUALS_BEGIN( DirectionData )
-- 
2.43.0


From f4eef3f6a0557b4d31fd7ab75d7b5edf44c47e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 75/76] fix: the isSpecified of line and curve data sees all of
 their fields

---
 Sourcecode/include/mx/api/CurveData.h | 3 +++
 Sourcecode/include/mx/api/LineData.h  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/Sourcecode/include/mx/api/CurveData.h b/Sourcecode/include/mx/api/CurveData.h
index 7bed4ad..fbd03a8 100644
--- a/Sourcecode/include/mx/api/CurveData.h
+++ b/Sourcecode/include/mx/api/CurveData.h
@@ -79,6 +79,9 @@ namespace mx
             {
                 return positionData.isDefaultXSpecified
                 || positionData.isDefaultYSpecified
+                || positionData.isRelativeXSpecified
+                || positionData.isRelativeYSpecified
+                || positionData.placement != Placement::unspecified
                 || isBezierXSpecified
                 || isBezierYSpecified
                 || isBezierOffsetSpecified;
diff --git a/Sourcecode/include/mx/api/LineData.h b/Sourcecode/include/mx/api/LineData.h
index 0e940c5..4461d46 100644
--- a/Sourcecode/include/mx/api/LineData.h
+++ b/Sourcecode/include/mx/api/LineData.h
@@ -43,6 +43,8 @@ namespace mx
             inline bool isSpecified() const
             {
                 return lineType != LineType::unspecified ||
+                lineHook != LineHook::unspecified ||
+                isStopLengthSpecified ||
                 isDashLengthSpecified ||
                 isSpaceLengthSpecified;
             }
-- 
2.43.0


From 1c83ad743315b3553cf06a0c82d5c6d75d649416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:29 +0000
Subject: [PATCH 76/76] fix: a note that both ends and starts a tie wrote its
 notations twice

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index d6ceadc..01f313e 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -268,7 +268,6 @@ namespace mx
                 notations = outNote->getNotationsSet().front();
                 notationsChoice = core::makeNotationsChoice();
                 notations->addNotationsChoice( notationsChoice );
-                outNote->addNotations( notations );
             }
             else
             {
-- 
2.43.0

