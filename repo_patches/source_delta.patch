From 1e9261c5f51917510241e373325e5029df3af087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 01/54] fix: unmatched </font> in a SubRip file read past the
 end of the colour stack

---
 src/subrip_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..295fee6 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -300,11 +300,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
-			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
+			/* Always keep the default colour at the bottom of the stack; this may be an unmatched </font> */
+			if (colours.size() > 1) {
 				colours.pop_back();
-				p.colour = colours.back();
 			}
+			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
-- 
2.43.0


From 9caf800eb9d2b85b27ac30356f3e9251f9de3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 02/54] fix: SSA tags in a SubRip line were applied to the text
 before them

---
 src/subrip_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 295fee6..f5934bf 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -306,6 +306,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
+			maybe_content (p);
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
 				ssa += t[i];
-- 
2.43.0


From ce5302d2244286eb6dde3688f82b647b069bedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 03/54] fix: font colours nested over several rows of a SubRip
 subtitle were forgotten

---
 src/subrip_reader.cc | 16 +++++++---------
 src/subrip_reader.h  |  3 +++
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index f5934bf..896901c 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours = { Colour(1, 1, 1) };
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -273,10 +271,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -293,7 +291,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
+					_colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -301,10 +299,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Always keep the default colour at the bottom of the stack; this may be an unmatched </font> */
-			if (colours.size() > 1) {
-				colours.pop_back();
+			if (_colours.size() > 1) {
+				_colours.pop_back();
 			}
-			p.colour = colours.back();
+			p.colour = _colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			maybe_content (p);
 			string ssa = "\\";
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..be2de58 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -27,6 +27,7 @@
 #include "reader.h"
 #include <boost/function.hpp>
 #include <list>
+#include <vector>
 
 struct subrip_reader_convert_line_test;
 struct subrip_reader_convert_time_test;
@@ -56,6 +57,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** colours of the <font> tags that are open in the current subtitle, with the default one first */
+	std::vector<Colour> _colours = { Colour(1, 1, 1) };
 };
 
 }
-- 
2.43.0


From 1bf711d69e98c0fe83676d004bd1d854783160a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 04/54] fix: right-to-left marks were not stripped from SubRip
 text followed by a tag

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 896901c..1fd955f 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -318,11 +318,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
@@ -330,6 +325,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 void
 SubripReader::maybe_content (RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (p.text, "\xe2\x80\xab", "");
+
 	if (!p.text.empty ()) {
 		_subs.push_back (p);
 		p.text.clear ();
-- 
2.43.0


From 49a207295297e4a32614c57038d45962380d3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 05/54] fix: times with different frame rates were compared
 wrongly

---
 src/sub_time.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..4ceff0b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -31,6 +32,15 @@ using std::setfill;
 using boost::optional;
 using namespace sub;
 
+/** @return A value proportional to the duration of some frames at a given rate, for comparison with
+ *  the value for some frames at a different rate.
+ */
+static int64_t
+scaled_frames (int frames, Rational const & rate, Rational const & other)
+{
+	return int64_t(frames) * rate.denominator * other.numerator;
+}
+
 bool
 sub::operator< (sub::Time const & a, sub::Time const & b)
 {
@@ -47,7 +57,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return scaled_frames(a._frames, *a._rate, *b._rate) < scaled_frames(b._frames, *b._rate, *a._rate);
 }
 
 bool
@@ -66,7 +76,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return scaled_frames(a._frames, *a._rate, *b._rate) > scaled_frames(b._frames, *b._rate, *a._rate);
 }
 
 bool
@@ -85,7 +95,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return scaled_frames(a._frames, *a._rate, *b._rate) == scaled_frames(b._frames, *b._rate, *a._rate);
 }
 
 bool
-- 
2.43.0


From 84da03fbfe02a37c5fa197d07339424d73ad8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 06/54] fix: adding times could lose a frame

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 4ceff0b..72f6b88 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -190,7 +190,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From fe74a7ae0f310dff1cab64faffa2a1407b3827f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 07/54] fix: scaling a time could give as many frames as there
 are in a second

---
 src/sub_time.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 72f6b88..78af8f3 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -203,4 +203,10 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+
+	/* The rounding may have taken us into the next second */
+	if (_frames >= _rate->integer_fraction()) {
+		++_seconds;
+		_frames = 0;
+	}
 }
-- 
2.43.0


From 3c679ed7ad182bd4e208bfa7493994a4e9a6c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 08/54] fix: undefined ISO 6937 bytes crashed the decoder, gave
 NUL characters and altered the conversion tables

---
 src/iso6937.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..f51a303 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -47,13 +47,16 @@ sub::iso6937_to_utf16 (string s)
 	int i = 0;
 	while (s[i] != '\0') {
 		unsigned char const u = static_cast<unsigned char> (s[i]);
-		if (u >= 0xc1 && u <= 0xcf) {
+		if (iso6937::diacriticals.find(u) != iso6937::diacriticals.end()) {
 			diacritical = u;
-		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
-			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			/* Skip anything that is not in our tables */
+			map<char, wchar_t> const & table = diacritical ? *iso6937::diacriticals.find(diacritical.get())->second : iso6937::main;
+			map<char, wchar_t>::const_iterator c = table.find(u);
+			if (c != table.end()) {
+				o += c->second;
+			}
+			diacritical.reset ();
 		}
 
 		++i;
-- 
2.43.0


From ae06b555a279436fa291db068b1437a72ffa47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 09/54] fix: combining characters were written in ISO 6937 as
 diacriticals of the next character

---
 src/iso6937.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index f51a303..18aeeb5 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -89,7 +89,12 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		if (c && iso6937::diacriticals.find(c.get()) != iso6937::diacriticals.end()) {
+			/* This is a combining character, and its code would apply to whatever comes next
+			   rather than to what came before.
+			*/
+			continue;
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
-- 
2.43.0


From 1b4a3b2e715d593cbaec162bed95fb14c91ffffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 10/54] fix: binary STL language group U8 was taken for
 Latin/Hebrew

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From df34fcd1231bef7bc837b5800f66014e33033919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 11/54] fix: asking for the position of a row of an unknown
 number of rows aborted

---
 src/vertical_position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..0baf453 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,7 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && (!line || !lines))) {
 		return 0;
 	}
 
-- 
2.43.0


From 332d5c46d3591aedfee11fc5a7fac983c8d74608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 12/54] fix: malformed hexadecimal colours were accepted

---
 src/colour.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/colour.cc b/src/colour.cc
index fc7a1fb..5e2c23b 100644
--- a/src/colour.cc
+++ b/src/colour.cc
@@ -26,11 +26,19 @@ using std::string;
 using namespace sub;
 
 
+/** @return true if s consists of exactly n hexadecimal digits */
+static bool
+is_hex(string const& s, size_t n)
+{
+	return s.length() == n && s.find_first_not_of("0123456789abcdefABCDEF") == string::npos;
+}
+
+
 Colour
 Colour::from_rgba_hex(string rgba_hex)
 {
 	int ir, ig, ib, alpha;
-	if (sscanf(rgba_hex.c_str(), "%2x%2x%2x%2x", &ir, &ig, &ib, &alpha) < 4) {
+	if (!is_hex(rgba_hex, 8) || sscanf(rgba_hex.c_str(), "%2x%2x%2x%2x", &ir, &ig, &ib, &alpha) < 4) {
 		throw XMLError ("could not parse colour string");
 	}
 
@@ -42,7 +50,7 @@ Colour
 Colour::from_rgb_hex (string rgb_hex)
 {
 	int ir, ig, ib;
-	if (sscanf (rgb_hex.c_str(), "%2x%2x%2x", &ir, &ig, &ib) < 3) {
+	if (!is_hex(rgb_hex, 6) || sscanf (rgb_hex.c_str(), "%2x%2x%2x", &ir, &ig, &ib) < 3) {
 		throw XMLError ("could not parse colour string");
 	}
 
-- 
2.43.0


From 2579618bc71aaf046666b2e014fad47c0a55ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 13/54] fix: font sizes lost a point when converted to a
 proportion and back

---
 src/font_size.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/font_size.cc b/src/font_size.cc
index 00a74cf..74217f9 100644
--- a/src/font_size.cc
+++ b/src/font_size.cc
@@ -18,6 +18,7 @@
 */
 
 #include "font_size.h"
+#include <cmath>
 
 using namespace sub;
 
@@ -38,7 +39,7 @@ FontSize::points (int screen_height_in_points) const
 		return _points.get ();
 	}
 
-	return _proportional.get() * screen_height_in_points;
+	return lrint(_proportional.get() * screen_height_in_points);
 }
 
 FontSize
-- 
2.43.0


From e8f5312ae01f55d3002fbd510f7ee6bbeea09272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 14/54] fix: unsupported SSA tags were taken for supported ones
 with the same beginning

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..3c65b02 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,10 +283,10 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
-		SUB_ASSERT (tag.length() > 3);
+	} else if (boost::starts_with(tag, "\\fs") && tag.length() > 3 && is_any_of("0123456789.")(tag[3])) {
+		/* Not one of \fscx, \fscy or \fsp */
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (boost::starts_with(tag, "\\c") && !boost::starts_with(tag, "\\clip")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
 			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
-- 
2.43.0


From b050148de73ad8a994d19d4e8d998bc0341cd00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 15/54] fix: SSA sections other than info, styles and events
 were read as part of the one before

---
 src/ssa_reader.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 3c65b02..aae13fa 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -430,7 +430,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -460,10 +461,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			/* e.g. embedded fonts or graphics */
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
@@ -572,6 +580,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 					}
 				}
 			}
+			break;
+		case OTHER:
+			break;
 		}
 
 	}
-- 
2.43.0


From 365e1ca9701ae5d27b8b65d3d3c3531648c97ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 16/54] fix: lines longer than 255 bytes were broken up when
 read from a file

---
 src/util.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..08bddf7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,20 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
-	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	string line;
+	int c;
+	while ((c = fgetc(f)) != EOF) {
+		line += static_cast<char>(c);
+		if (c == '\n') {
+			break;
+		}
+	}
+
+	if (line.empty()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From 9b30dc9e80ebb3da06fbdb855710770b7128aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 17/54] fix: SSA styles without a primary colour had an
 out-of-range colour

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index aae13fa..5956775 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From c21bd78cc8eeff32bd27a45a9b4fe36127421eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 18/54] fix: fractional SSA font sizes were truncated

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 5956775..5ea80c4 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -117,7 +117,7 @@ public:
 			} else if (keys[i] == "Fontname") {
 				font_name = style[i];
 			} else if (keys[i] == "Fontsize") {
-				font_size = raw_convert<int> (style[i]);
+				font_size = raw_convert<float> (style[i]);
 			} else if (keys[i] == "PrimaryColour") {
 				primary_colour = colour (style[i]);
 			} else if (keys[i] == "BackColour") {
@@ -159,7 +159,7 @@ public:
 
 	string name;
 	optional<string> font_name;
-	int font_size; ///< points
+	float font_size; ///< points
 	Colour primary_colour;
 	/** outline colour */
 	optional<Colour> back_colour;
@@ -545,7 +545,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 							continue;
 						}
 						sub.font = style->font_name;
-						sub.font_size = FontSize::from_proportional(static_cast<float>(style->font_size) / play_res_y);
+						sub.font_size = FontSize::from_proportional(style->font_size / play_res_y);
 						sub.colour = style->primary_colour;
 						sub.effect_colour = style->back_colour;
 						sub.bold = style->bold;
-- 
2.43.0


From e1c35714fb16d1efcb1ac279bcc585619b0c7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 19/54] fix: tags inside an SSA \\t() or \\clip() were applied
 to the text

---
 src/ssa_reader.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 5ea80c4..b9b5417 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -314,6 +314,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 	vector<RawSubtitle> subs;
 	RawSubtitle current = base;
 	string tag;
+	/* Number of open brackets in the tag; tags inside another one (i.e. \t) belong to it */
+	int brackets = 0;
 
 	if (!current.vertical_position.reference) {
 		current.vertical_position.reference = BOTTOM_OF_SCREEN;
@@ -362,7 +364,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 			}
 			break;
 		case TAG:
-			if (c == '}' || c == '\\') {
+			if (c == '}' || (c == '\\' && brackets == 0)) {
 				if (!current.text.empty ()) {
 					subs.push_back (current);
 					current.text = "";
@@ -373,8 +375,14 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 
 			if (c == '}') {
 				state = TEXT;
+				brackets = 0;
 			} else {
 				tag += c;
+				if (c == '(') {
+					++brackets;
+				} else if (c == ')' && brackets > 0) {
+					--brackets;
+				}
 			}
 			break;
 		case BACKSLASH:
-- 
2.43.0


From ce6850b537c75042d540a355b99b1e31f3119338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 20/54] fix: SSA event margins given before the style were
 ignored

---
 src/ssa_reader.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index b9b5417..ab85104 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -531,13 +531,10 @@ SSAReader::read (function<optional<string> ()> get_line)
 				int left_margin = 0;
 				int right_margin = 0;
 
+				/* Look at the style first, as the event's margins take precedence over it */
 				for (size_t i = 0; i < event.size(); ++i) {
 					trim (event[i]);
-					if (event_format[i] == "Start") {
-						sub.from = parse_time (event[i]);
-					} else if (event_format[i] == "End") {
-						sub.to = parse_time (event[i]);
-					} else if (event_format[i] == "Style") {
+					if (event_format[i] == "Style") {
 						/* libass trims leading '*'s from style names, commenting that
 						   "they seem to mean literally nothing".  Go figure...
 						*/
@@ -567,6 +564,14 @@ SSAReader::read (function<optional<string> ()> get_line)
 						}
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
+					}
+				}
+
+				for (size_t i = 0; i < event.size(); ++i) {
+					if (event_format[i] == "Start") {
+						sub.from = parse_time (event[i]);
+					} else if (event_format[i] == "End") {
+						sub.to = parse_time (event[i]);
 					} else if (event_format[i] == "MarginV") {
 						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
-- 
2.43.0


From 670c0d53de6692301116e02d3ad7eabf3bfccf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 21/54] fix: SSA event margins written 0000 overrode those of
 the style

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ab85104..ee295be 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -573,16 +573,16 @@ SSAReader::read (function<optional<string> ()> get_line)
 					} else if (event_format[i] == "End") {
 						sub.to = parse_time (event[i]);
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-- 
2.43.0


From beeda0cd19381c7b9f084c65b06d702527d689a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 22/54] fix: vertical margins were lost when \an moved SSA
 subtitles away from a centred style

---
 src/ssa_reader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ee295be..ee92bb9 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -559,9 +559,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						/* This will be ignored if the subtitle ends up vertically centred */
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					}
@@ -573,7 +572,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 					} else if (event_format[i] == "End") {
 						sub.to = parse_time (event[i]);
 					} else if (event_format[i] == "MarginV") {
-						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
-- 
2.43.0


From 788d168069536eaf61ac6fa109ab8c42d0ae86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 23/54] fix: an empty file was accepted as WebVTT

---
 src/web_vtt_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..82ed0e1 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -151,5 +151,10 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 		}
 
 	}
+
+	if (state == State::HEADER) {
+		/* The file is empty */
+		throw WebVTTHeaderError();
+	}
 }
 
-- 
2.43.0


From 66300fcc13360108eef9ac10a4cc2bbb9c90efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 24/54] fix: the last line of a textual STL file was lost if it
 had no line ending

---
 src/stl_text_reader.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..5b5dcd4 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -44,13 +44,8 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.line = 0;
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
-	while (in.good ()) {
-		string line;
-		getline (in, line);
-		if (!in.good ()) {
-			return;
-		}
-
+	string line;
+	while (getline (in, line)) {
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From 3f4f2fa3822ccdab841b59a0e14aa345255e34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 25/54] fix: textual STL times lost a digit when there was no
 space after them

---
 src/stl_text_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 5b5dcd4..fa93a4f 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -74,12 +74,12 @@ STLTextReader::STLTextReader (istream& in)
 				divider[1] = line.find_first_of (",", divider[0] + 1);
 			}
 
-			if (divider[0] == string::npos || divider[1] == string::npos || divider[0] <= 1 || divider[1] >= line.length() - 1) {
+			if (divider[0] == string::npos || divider[1] == string::npos || divider[0] == 0 || divider[1] >= line.length() - 1) {
 				warn (String::compose ("Unrecognised line %1", line));
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From d46c30944a24b397e909f6bf72db912beae83bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 26/54] fix: rows and styles of textual STL subtitles were
 confused by toggles and trailing breaks

---
 src/stl_text_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index fa93a4f..0b60e34 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -92,6 +92,9 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
+			/* Style and position changes made by the text apply to this subtitle only */
+			RawSubtitle const settings = _subtitle;
+
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
 
@@ -123,6 +126,7 @@ STLTextReader::STLTextReader (istream& in)
 			}
 
 			maybe_push ();
+			_subtitle = settings;
 		}
 	}
 }
@@ -162,6 +166,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From 5e5093bd5d489b0eeee313c16475d2b93d2626f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:26 +0000
Subject: [PATCH 27/54] fix: a textual STL file was rejected because of one
 unrecognised time or font size

---
 src/stl_text_reader.cc | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 0b60e34..f21d8cb 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -19,8 +19,8 @@
 
 #include "stl_text_reader.h"
 #include "compose.hpp"
+#include "raw_convert.h"
 #include <boost/algorithm/string.hpp>
-#include <boost/lexical_cast.hpp>
 #include <vector>
 #include <iostream>
 
@@ -33,9 +33,19 @@ using boost::algorithm::trim;
 using boost::algorithm::starts_with;
 using boost::is_any_of;
 using boost::optional;
-using boost::lexical_cast;
 using namespace sub;
 
+/** @return the value of a string of digits, or none if it is anything else */
+static optional<int>
+integer (string s)
+{
+	if (s.empty() || s.length() > 9 || s.find_first_not_of("0123456789") != string::npos) {
+		return optional<int> ();
+	}
+
+	return raw_convert<int> (s);
+}
+
 STLTextReader::STLTextReader (istream& in)
 {
 	/* This reader extracts no information about where the subtitle
@@ -141,7 +151,16 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	optional<int> const h = integer (b[0]);
+	optional<int> const m = integer (b[1]);
+	optional<int> const s = integer (b[2]);
+	optional<int> const f = integer (b[3]);
+	if (!h || !m || !s || !f) {
+		warn (String::compose ("Unrecognised time %1", t));
+		return optional<Time> ();
+	}
+
+	return sub::Time::from_hmsf (*h, *m, *s, *f);
 }
 
 void
@@ -156,7 +175,12 @@ STLTextReader::set (string name, string value)
 	} else if (name == "$Underlined") {
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
-		_subtitle.font_size.set_points (lexical_cast<int> (value));
+		optional<int> const size = integer (value);
+		if (size) {
+			_subtitle.font_size.set_points (*size);
+		} else {
+			warn (String::compose ("Unrecognised font size %1", value));
+		}
 	}
 }
 
-- 
2.43.0


From 1b23d223c8a650421bce4c77e7f1a62634d7c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 28/54] fix: times in 23.976 fps binary STL files were read at
 23 fps

---
 src/stl_binary_reader.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..6357c99 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -77,9 +77,9 @@ public:
 		return v;
 	}
 
-	Time get_timecode (int offset, int frame_rate) const
+	Time get_timecode (int offset, Rational frame_rate) const
 	{
-		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], Rational (frame_rate, 1));
+		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], frame_rate);
 	}
 
 protected:
@@ -146,7 +146,10 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	reader->read (1024, "GSI");
 
 	code_page_number = atoi (reader->get_string(0, 3).c_str());
-	frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	float const exact_frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	frame_rate = exact_frame_rate;
+	/* The only rate which is not an integer is 23.976 */
+	Rational const timecode_rate = frame_rate == exact_frame_rate ? Rational(frame_rate, 1) : Rational(24000, 1001);
 	display_standard = _tables.display_standard_file_to_enum (reader->get_string(11, 1));
 	language_group = _tables.language_group_file_to_enum (reader->get_string(12, 2));
 	language = _tables.language_file_to_enum (reader->get_string(14, 2));
@@ -210,8 +213,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
+			sub.from = reader->get_timecode(5, timecode_rate);
+			sub.to = reader->get_timecode(9, timecode_rate);
 			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
 			 * is wrong if the EBN of this TTI block is not 255 (I think).
 			 */
-- 
2.43.0


From 54f2af02dd078c8c1a94b1ba245068cacd246116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 29/54] fix: binary STL subtitles with extension blocks were
 read as several subtitles

---
 src/stl_binary_reader.cc | 59 +++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 6357c99..1f7619e 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -129,6 +129,18 @@ private:
 	FILE* _in;
 };
 
+/** Details of a subtitle from one or more TTI blocks */
+class TTI
+{
+public:
+	int number;
+	Time from;
+	Time to;
+	int vertical_position;
+	int justification;
+	string text;
+};
+
 }
 
 STLBinaryReader::STLBinaryReader (istream& in)
@@ -190,7 +202,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_name = reader->get_string(309, 32);
 	editor_contact_details = reader->get_string(341, 32);
 
-	int highest_line = 0;
+	/* The text of a subtitle may be continued in extension blocks, so put the blocks together first */
+	vector<TTI> ttis;
+	bool finished = true;
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -199,11 +213,33 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
-		string const whole = reader->get_string(16, 112);
+		int const number = reader->get_int (1, 2);
+
+		if (finished || ttis.back().number != number) {
+			/* Only the first block's times, position and justification are significant */
+			TTI tti;
+			tti.number = number;
+			tti.from = reader->get_timecode (5, timecode_rate);
+			tti.to = reader->get_timecode (9, timecode_rate);
+			tti.vertical_position = reader->get_int (13, 1);
+			tti.justification = reader->get_int (14, 1);
+			ttis.push_back (tti);
+		}
+
+		/* 8Fh is unused space i.e. the end of the text in this block */
+		string const text = reader->get_string (16, 112);
+		ttis.back().text += text.substr (0, text.find('\x8f'));
+
+		/* FFh is the last block of a subtitle */
+		finished = reader->get_int(3, 1) == 0xff;
+	}
+
+	int highest_line = 0;
+	for (auto const& i: ttis) {
 
 		/* Split the text up into lines (8Ah is a new line) */
 		vector<string> lines;
-		split (lines, whole, is_any_of ("\x8a"));
+		split (lines, i.text, is_any_of ("\x8a"));
 
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
@@ -213,12 +249,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, timecode_rate);
-			sub.to = reader->get_timecode(9, timecode_rate);
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
-			sub.vertical_position.line = reader->get_int(13, 1) + j;
+			sub.from = i.from;
+			sub.to = i.to;
+			sub.vertical_position.line = i.vertical_position + j;
 			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
 			sub.vertical_position.reference = TOP_OF_SCREEN;
@@ -226,8 +259,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			sub.underline = underline;
 
 			/* XXX: not sure what to do with JC = 0, "unchanged presentation" */
-			int const h = reader->get_int(14, 1);
-			switch (h) {
+			switch (i.justification) {
 			case 0:
 			case 2:
 				sub.horizontal_position.reference = HORIZONTAL_CENTRE_OF_SCREEN;
@@ -246,11 +278,6 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 				unsigned char const c = static_cast<unsigned char> (lines[j][k]);
 
-				if (c == 0x8f) {
-					/* Unused space i.e. end of line */
-					break;
-				}
-
 				if (c <= 0x07 || (c >= 0x80 && c <= 0x83)) {
 					/* Colour, italic or underline control code */
 					sub.text = utf_to_utf<char> (iso6937_to_utf16 (text.c_str()));
-- 
2.43.0


From 6ed93e147a396cddb7f746184d6bd2e7209d5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 30/54] fix: user data blocks in binary STL files were read as
 subtitles

---
 src/stl_binary_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 1f7619e..13887e7 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -213,6 +213,13 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
+		int const extension_block_number = reader->get_int (3, 1);
+
+		if (extension_block_number == 0xfe) {
+			/* User data */
+			continue;
+		}
+
 		int const number = reader->get_int (1, 2);
 
 		if (finished || ttis.back().number != number) {
@@ -231,7 +238,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 		ttis.back().text += text.substr (0, text.find('\x8f'));
 
 		/* FFh is the last block of a subtitle */
-		finished = reader->get_int(3, 1) == 0xff;
+		finished = extension_block_number == 0xff;
 	}
 
 	int highest_line = 0;
-- 
2.43.0


From f904a5dd811e7b82dcfd6aef044eb86a2ff2816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 31/54] fix: rows of subtitles moved up when written to binary
 STL

---
 src/stl_binary_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..b7d1d6b 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -129,13 +129,13 @@ vertical_position (sub::Line const & line)
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From eb03b676434722ef31448ff8143b5aa9ca7ea3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 32/54] fix: writing a subtitle with a line number but no
 number of lines to binary STL aborted

---
 src/stl_binary_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index b7d1d6b..85cbf37 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -126,7 +126,8 @@ vertical_position (sub::Line const & line)
 			break;
 		}
 	} else if (line.vertical_position.line) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+		/* If we don't know how many lines there are assume that they are the same as ours */
+		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get_value_or (ROWS);
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
 			vp = rint (prop * ROWS);
-- 
2.43.0


From c9521333392cc89c476862aff3e4a2dddf010d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 33/54] fix: rows of a subtitle were joined when they were
 close together in binary STL

---
 src/stl_binary_writer.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 85cbf37..fbba683 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -170,20 +170,18 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		string text;
 		bool italic = false;
 		bool underline = false;
-		optional<int> last_vp;
+		optional<int> last_row;
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			/* CR/LF down to this line, which must be below the last one */
+			int const row = last_row ? max(vertical_position(j), last_row.get() + 1) : top.get();
 
-			if (last_vp) {
-				for (int k = last_vp.get(); k < vp; ++k) {
-					text += "\x8A";
-				}
+			if (last_row) {
+				text += string (row - last_row.get(), '\x8A');
 			}
 
-			last_vp = vp;
+			last_row = row;
 
 			for (auto const& k: j.blocks) {
 				if (k.underline && !underline) {
-- 
2.43.0


From 55c1f1004fa10c34c1112af1c6e7653c087c2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 34/54] fix: subtitles positioned off the screen were written
 to binary STL on impossible rows

---
 src/stl_binary_writer.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index fbba683..38eb410 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -110,7 +110,7 @@ put_int_as_int (char* p, int v, unsigned int n)
 static int
 vertical_position (sub::Line const & line)
 {
-	int vp = 0;
+	float vp = 0;
 	if (line.vertical_position.proportional) {
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
@@ -143,7 +143,8 @@ vertical_position (sub::Line const & line)
 		}
 	}
 
-	return vp;
+	/* Keep the row on the screen, taking care of values that are not numbers */
+	return vp > 0 ? std::min(vp, float(ROWS)) : 0;
 }
 
 vector<char*>
@@ -157,14 +158,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 	for (auto const& i: subtitles) {
 
-		/* Find the top vertical position of this subtitle */
+		/* Top row of this subtitle */
 		optional<int> top;
-		for (auto const& j: i.lines) {
-			int const vp = vertical_position (j);
-			if (!top || vp < top.get ()) {
-				top = vp;
-			}
-		}
+		int lines_left = i.lines.size();
 
 		/* Work out the text */
 		string text;
@@ -174,11 +170,16 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line, which must be below the last one */
-			int const row = last_row ? max(vertical_position(j), last_row.get() + 1) : top.get();
+			/* CR/LF down to this line, which must be below the last one and leave
+			   space on the screen for the ones that follow.
+			*/
+			--lines_left;
+			int const row = max (std::min(vertical_position(j), ROWS - lines_left), last_row ? last_row.get() + 1 : 0);
 
 			if (last_row) {
 				text += string (row - last_row.get(), '\x8A');
+			} else {
+				top = row;
 			}
 
 			last_row = row;
-- 
2.43.0


From 34f287b8d5bb36c4f105613c04bf8c03c2bca966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 35/54] fix: wrong maximum row length in binary STL files with
 rows of over 99 bytes

---
 src/stl_binary_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 38eb410..6f84e66 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -366,7 +366,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min(longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 53029773f1402d47be5878898779c625522d2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 36/54] fix: times which round up to the next second were given
 too many frames in binary STL

---
 src/stl_binary_writer.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 6f84e66..bb7a91f 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -107,6 +107,23 @@ put_int_as_int (char* p, int v, unsigned int n)
 	}
 }
 
+static void
+put_time_code (char* p, Time const& time, Rational rate)
+{
+	int seconds = time.hours() * 3600 + time.minutes() * 60 + time.seconds();
+	int frames = time.frames_at (rate);
+	if (frames >= rate.fraction()) {
+		/* Rounding has taken us into the next second */
+		++seconds;
+		frames = 0;
+	}
+
+	put_int_as_int (p, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 static int
 vertical_position (sub::Line const & line)
 {
@@ -230,15 +247,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_time_code (buffer + 5, i.from, sub::Rational(frames_per_second * 1000, 1000));
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_time_code (buffer + 9, i.to, sub::Rational(frames_per_second * 1000, 1000));
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From 710cad9dc736ef4aa76c115e11706500521260b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 37/54] fix: time codes did not agree with the declared frame
 rate in binary STL files at unsupported rates

---
 src/stl_binary_writer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index bb7a91f..c08d7b9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -348,12 +348,15 @@ sub::write_stl_binary (
 		}
 	}
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	/* This may not be for exactly the frame rate that was asked for */
+	string const dfc = stl_frame_rate_to_dfc (frames_per_second);
+
+	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, stl_dfc_to_frame_rate(dfc));
 
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
 	/* Disk format code */
-	put_string (buffer + 3, stl_frame_rate_to_dfc (frames_per_second));
+	put_string (buffer + 3, dfc);
 	/* Display standard code: open subtitling */
 	put_string (buffer + 11, "0");
 	/* Character code table: Latin (ISO 6937) */
-- 
2.43.0


From c7244e5fbafc3c0048c4f4f295673047cbb37486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 38/54] fix: subtitles which do not fit in a binary STL file
 were written wrongly instead of being refused

---
 src/stl_binary_writer.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index c08d7b9..2499959 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -23,6 +23,7 @@
 
 #include "stl_binary_writer.h"
 #include "subtitle.h"
+#include "exceptions.h"
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
@@ -232,6 +233,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Make sure there's at least one end-of-line */
 		text += "\x8F";
 
+		/* A subtitle can have 240 numbered blocks and then one last one */
+		if (text.length() > 241 * 112) {
+			throw STLError ("Subtitle is too long to be written to a binary STL file");
+		}
+
 		/* Now write this text in 112 byte chunks (TTI blocks).  Only the first TTI
 		   block's cumulative status, timecodes, vertical position, justification code
 		   and comment flag are taken into account by the reader.
@@ -353,6 +359,11 @@ sub::write_stl_binary (
 
 	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, stl_dfc_to_frame_rate(dfc));
 
+	/* There are five digits for each of these in the header */
+	if (tti_blocks.size() > 99999 || subtitles.size() > 99999) {
+		throw STLError ("Too many subtitles to be written to a binary STL file");
+	}
+
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
 	/* Disk format code */
-- 
2.43.0


From 60dc21d49846402c9f902c05bd97e8848398da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 39/54] fix: failure to write a binary STL file went unnoticed

---
 src/stl_binary_writer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 2499959..ada0322 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -415,4 +415,9 @@ sub::write_stl_binary (
 		output.write (i, 128);
 		delete[] i;
 	}
+	output.close ();
+
+	if (!output) {
+		throw STLError (String::compose("Could not write binary STL file %1", file_name.string()));
+	}
 }
-- 
2.43.0


From 506656f5b66f531930d32cdebd88d61720a1c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:42 +0000
Subject: [PATCH 40/54] fix: a missing STL file was read as one with no
 subtitles

---
 src/reader_factory.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..2cb818b 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -18,6 +18,8 @@
 */
 
 #include "reader_factory.h"
+#include "compose.hpp"
+#include "exceptions.h"
 #include "stl_binary_reader.h"
 #include "stl_text_reader.h"
 #include "subrip_reader.h"
@@ -40,6 +42,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".stl") {
 		/* Check the start of the DFC */
 		ifstream f (file_name.string().c_str ());
+		if (!f) {
+			throw STLError (String::compose ("Could not open STL file %1", file_name.string()));
+		}
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-- 
2.43.0


From 8d07b0993171bbafd10a15e449a1f45e275b184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 41/54] fix: malformed SubRip files were left open by
 reader_factory

---
 src/reader_factory.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 2cb818b..710219e 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -58,9 +58,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
-		fclose (f);
-		return r;
+		/* Close the file even if the reader throws */
+		shared_ptr<FILE> close (f, fclose);
+		return shared_ptr<Reader> (new SubripReader(f));
 	}
 
 	return shared_ptr<Reader> ();
-- 
2.43.0


From 5ff544b289b487592964e121088338164fe00716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 42/54] fix: textual STL files with STL in a comment at the
 start were taken for binary ones

---
 src/reader_factory.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 710219e..2f8747d 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -48,7 +48,12 @@ sub::reader_factory (boost::filesystem::path file_name)
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
+		/* The DFC is STLxx.xx; a textual file could have STL here too, in a comment for example */
+		if (
+			f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L' &&
+			isdigit(static_cast<unsigned char>(buffer[6])) && isdigit(static_cast<unsigned char>(buffer[7])) && buffer[8] == '.' &&
+			isdigit(static_cast<unsigned char>(buffer[9])) && isdigit(static_cast<unsigned char>(buffer[10]))
+			) {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
 		} else {
 			return shared_ptr<Reader> (new STLTextReader (f));
-- 
2.43.0


From 1dd1f547464d05896e7e80860eb8a54f15b81498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 43/54] fix: times in SubRip and WebVTT files were read
 differently in locales with thousands separators

---
 src/subrip_reader.cc | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 1fd955f..33bdddd 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -32,10 +32,12 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/algorithm/string_regex.hpp>
 #include <boost/bind/bind.hpp>
-#include <boost/lexical_cast.hpp>
 #include <boost/regex.hpp>
+#include <cerrno>
 #include <cstdio>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 
@@ -43,7 +45,6 @@ using std::string;
 using std::vector;
 using std::cout;
 using std::hex;
-using boost::lexical_cast;
 using boost::to_upper;
 using boost::optional;
 using boost::function;
@@ -167,6 +168,29 @@ SubripReader::read (function<optional<string> ()> get_line)
 	}
 }
 
+/** Convert a string to an integer in the same way whatever the locale (lexical_cast
+ *  accepts thousands separators in locales which have them).
+ */
+static
+bool
+integer(string const& s, int& value)
+{
+	if (s.empty() || s.find_first_not_of("+-0123456789") != string::npos) {
+		return false;
+	}
+
+	char* end = nullptr;
+	errno = 0;
+	auto const v = strtol(s.c_str(), &end, 10);
+	if (errno || *end != '\0' || v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max()) {
+		return false;
+	}
+
+	value = v;
+	return true;
+}
+
+
 optional<Time>
 SubripReader::convert_time(string t, string milliseconds_separator, string* expected)
 {
@@ -192,30 +216,22 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 
 	int h, m, s, ms;
 
-	try {
-		h = lexical_cast<int>(a[0]);
-	} catch (boost::bad_lexical_cast &) {
+	if (!integer(a[0], h)) {
 		report_expected("integer hour value");
 		return {};
 	}
 
-	try {
-		m = lexical_cast<int>(a[1]);
-	} catch (boost::bad_lexical_cast &) {
+	if (!integer(a[1], m)) {
 		report_expected("integer minute value");
 		return {};
 	}
 
-	try {
-		s = lexical_cast<int>(b[0]);
-	} catch (boost::bad_lexical_cast &) {
+	if (!integer(b[0], s)) {
 		report_expected("integer second value");
 		return {};
 	}
 
-	try {
-		ms = lexical_cast<int>(b[1]);
-	} catch (boost::bad_lexical_cast &) {
+	if (!integer(b[1], ms)) {
 		report_expected("integer millisecond value");
 		return {};
 	}
-- 
2.43.0


From d11827a565fdc3e49f8150701023d9974107fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 44/54] fix: upper case SubRip tags were not recognised in
 Turkish locales

---
 src/subrip_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 33bdddd..e00c220 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -38,6 +38,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <limits>
+#include <locale>
 #include <vector>
 
 
@@ -243,9 +244,9 @@ void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
 	auto has_next = [](string line, size_t& index, string s) {
-		boost::to_lower(s);
+		boost::to_lower(s, std::locale::classic());
 		auto next = line.substr(index, s.size());
-		boost::to_lower(next);
+		boost::to_lower(next, std::locale::classic());
 		if (next != s) {
 			return false;
 		}
-- 
2.43.0


From 9477ab5f1558c5bdf9e235b48cfd1390b4436be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 45/54] fix: numbers in binary STL metadata depended on the
 locale

---
 src/stl_binary_reader.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 13887e7..397f081 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -22,7 +22,6 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
-#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <iostream>
@@ -32,7 +31,6 @@ using std::vector;
 using std::cout;
 using std::string;
 using std::istream;
-using boost::lexical_cast;
 using boost::algorithm::replace_all;
 using boost::is_any_of;
 using boost::locale::conv::utf_to_utf;
@@ -369,8 +367,8 @@ STLBinaryReader::metadata () const
 {
 	map<string, string> m;
 
-	m["Code page number"] = lexical_cast<string> (code_page_number);
-	m["Frame rate"] = lexical_cast<string> (frame_rate);
+	m["Code page number"] = std::to_string (code_page_number);
+	m["Frame rate"] = std::to_string (frame_rate);
 	m["Display standard"] = _tables.display_standard_enum_to_description (display_standard);
 	m["Language group"] = _tables.language_group_enum_to_description (language_group);
 	m["Language"] = _tables.language_enum_to_description (language);
@@ -384,16 +382,16 @@ STLBinaryReader::metadata () const
 	m["Creation date"] = creation_date;
 	m["Revision date"] = revision_date;
 	m["Revision number"] = revision_number;
-	m["TTI blocks"] = lexical_cast<string> (tti_blocks);
-	m["Number of subtitles"] = lexical_cast<string> (number_of_subtitles);
-	m["Subtitle groups"] = lexical_cast<string> (subtitle_groups);
-	m["Maximum characters"] = lexical_cast<string> (maximum_characters);
-	m["Maximum rows"] = lexical_cast<string> (maximum_rows);
+	m["TTI blocks"] = std::to_string (tti_blocks);
+	m["Number of subtitles"] = std::to_string (number_of_subtitles);
+	m["Subtitle groups"] = std::to_string (subtitle_groups);
+	m["Maximum characters"] = std::to_string (maximum_characters);
+	m["Maximum rows"] = std::to_string (maximum_rows);
 	m["Timecode status"] = _tables.timecode_status_enum_to_description (timecode_status);
 	m["Start of programme"] = start_of_programme;
 	m["First in cue"] = first_in_cue;
-	m["Disks"] = lexical_cast<string> (disks);
-	m["Disk sequence number"] = lexical_cast<string> (disk_sequence_number);
+	m["Disks"] = std::to_string (disks);
+	m["Disk sequence number"] = std::to_string (disk_sequence_number);
 	m["Country of origin"] = country_of_origin;
 	m["Publisher"] = publisher;
 	m["Editor name"] = editor_name;
-- 
2.43.0


From ab96a793b5d2a3fa829d6e33ff9af297bcc8926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 46/54] fix: rows of a SubRip subtitle with a position were
 joined when collected

---
 src/vertical_position.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index 0baf453..0bc3883 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -49,7 +49,8 @@ bool
 VerticalPosition::operator== (VerticalPosition const & other) const
 {
 	if (proportional && reference && other.proportional && other.reference) {
-		return proportional == other.proportional && reference == other.reference;
+		/* Different lines can be given one proportional position (by a SubRip file with \pos, for example) */
+		return proportional == other.proportional && reference == other.reference && line == other.line;
 	} else if (reference && line && lines && other.reference && other.line && other.lines) {
 		return line == other.line && lines == other.lines && reference == other.reference;
 	} else if (reference && line && other.reference && other.line) {
-- 
2.43.0


From 04f87ade12f4a2a75fad68a921a5a560b8e3c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 47/54] fix: dumpsubs carried on after an unknown option

---
 tools/dumpsubs.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index cf7008e..c701b9a 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -59,6 +59,9 @@ main (int argc, char* argv[])
 		case 'h':
 			help (argv[0]);
 			exit (EXIT_SUCCESS);
+		default:
+			help (argv[0]);
+			exit (EXIT_FAILURE);
 		}
 	}
 
-- 
2.43.0


From efc2f6735fd07b3eead620d43959d65106805f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:50 +0000
Subject: [PATCH 48/54] fix: dumpsubs aborted when a file could not be read

---
 tools/dumpsubs.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index c701b9a..71bb01c 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -23,6 +23,7 @@
 #include "util.h"
 #include <getopt.h>
 #include <boost/filesystem.hpp>
+#include <exception>
 #include <map>
 #include <iostream>
 
@@ -75,13 +76,18 @@ main (int argc, char* argv[])
 		exit (EXIT_FAILURE);
 	}
 
-	shared_ptr<Reader> reader = reader_factory (argv[optind]);
-	if (!reader) {
-		cerr << argv[0] << ": could not read subtitle file " << argv[optind] << "\n";
+	try {
+		shared_ptr<Reader> reader = reader_factory (argv[optind]);
+		if (!reader) {
+			cerr << argv[0] << ": could not read subtitle file " << argv[optind] << "\n";
+			exit (EXIT_FAILURE);
+		}
+
+		sub::dump (reader, cout);
+	} catch (std::exception& e) {
+		cerr << argv[0] << ": could not read subtitle file " << argv[optind] << " (" << e.what() << ")\n";
 		exit (EXIT_FAILURE);
 	}
 
-	sub::dump (reader, cout);
-
 	return 0;
 }
-- 
2.43.0


From f28a721c705d847682d2b6db9dcebff808cc5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 49/54] fix: dumpsubs reported success when its output could
 not be written

---
 tools/dumpsubs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index 71bb01c..a5c7f23 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -89,5 +89,11 @@ main (int argc, char* argv[])
 		exit (EXIT_FAILURE);
 	}
 
+	cout.flush ();
+	if (!cout) {
+		cerr << argv[0] << ": could not write output\n";
+		exit (EXIT_FAILURE);
+	}
+
 	return 0;
 }
-- 
2.43.0


From bc467bb01f781aec7a2a1aeea0277904f836a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 50/54] fix: errors reading subtitle files were taken for the
 end of the file

---
 src/stl_text_reader.cc | 5 +++++
 src/util.cc            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f21d8cb..dcee626 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -19,6 +19,7 @@
 
 #include "stl_text_reader.h"
 #include "compose.hpp"
+#include "exceptions.h"
 #include "raw_convert.h"
 #include <boost/algorithm/string.hpp>
 #include <vector>
@@ -139,6 +140,10 @@ STLTextReader::STLTextReader (istream& in)
 			_subtitle = settings;
 		}
 	}
+
+	if (in.bad()) {
+		throw STLError ("Could not read STL file");
+	}
 }
 
 optional<Time>
diff --git a/src/util.cc b/src/util.cc
index 08bddf7..93c2820 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -25,6 +25,7 @@
 #include <string>
 #include <iostream>
 #include <cstdio>
+#include <stdexcept>
 #include <map>
 
 using std::string;
@@ -82,6 +83,10 @@ sub::get_line_file (FILE* f)
 		}
 	}
 
+	if (ferror(f)) {
+		throw std::runtime_error ("Could not read from file");
+	}
+
 	if (line.empty()) {
 		return optional<string> ();
 	}
-- 
2.43.0


From ed3c6762b15520e2f19c16eb3b634ee09eec4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 51/54] fix: WebVTT cues with an identifier beginning with NOTE
 were lost

---
 src/web_vtt_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 82ed0e1..4708784 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,8 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			/* A comment is NOTE on its own or followed by white space; otherwise this could be a cue identifier */
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From e8fa167a8aac41e1e664f05c31de8df06ef13f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:47 +0000
Subject: [PATCH 52/54] fix: the ISO 6937 tables could be used by one thread
 while another made them

---
 src/iso6937.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 18aeeb5..e27de79 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,12 +33,20 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Make the tables if they have not been made already.  This may be called
+ *  from several threads at once.
+ */
+static void
+ensure_tables ()
+{
+	static bool const made = (make_iso6937_tables(), true);
+	static_cast<void> (made);
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	wstring o;
 
@@ -80,9 +88,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From ccc3aa0b494e9dd07724295631f2a74f28a6353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 53/54] fix: the blocks of a binary STL file that could not be
 written were leaked

---
 src/stl_binary_writer.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index ada0322..b43fd3c 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -165,11 +165,11 @@ vertical_position (sub::Line const & line)
 	return vp > 0 ? std::min(vp, float(ROWS)) : 0;
 }
 
-vector<char*>
+vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
-	vector<char*> tti;
+	vector<string> tti;
 
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
@@ -289,9 +289,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-			char* finished = new char[tti_size];
-			memcpy (finished, buffer, tti_size);
-			tti.push_back (finished);
+			tti.push_back (string(buffer, tti_size));
 		}
 	}
 
@@ -357,7 +355,7 @@ sub::write_stl_binary (
 	/* This may not be for exactly the frame rate that was asked for */
 	string const dfc = stl_frame_rate_to_dfc (frames_per_second);
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, stl_dfc_to_frame_rate(dfc));
+	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, stl_dfc_to_frame_rate(dfc));
 
 	/* There are five digits for each of these in the header */
 	if (tti_blocks.size() > 99999 || subtitles.size() > 99999) {
@@ -411,9 +409,8 @@ sub::write_stl_binary (
 
 	ofstream output (file_name.string().c_str());
 	output.write (buffer, 1024);
-	for (auto i: tti_blocks) {
-		output.write (i, 128);
-		delete[] i;
+	for (auto const& i: tti_blocks) {
+		output.write (i.data(), i.size());
 	}
 	output.close ();
 
-- 
2.43.0


From 6805b91cf30a5d4ce3a7c398827e6ee203932767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 54/54] fix: a font size in points was lost or disagreed with
 \fs when a line of SSA was parsed

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ee92bb9..8e40a43 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -285,7 +285,7 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
 	} else if (boost::starts_with(tag, "\\fs") && tag.length() > 3 && is_any_of("0123456789.")(tag[3])) {
 		/* Not one of \fscx, \fscy or \fsp */
-		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
+		sub.font_size = FontSize::from_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
 	} else if (boost::starts_with(tag, "\\c") && !boost::starts_with(tag, "\\clip")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
@@ -334,7 +334,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 	   in pixels and in that case we must know how big the subtitle
 	   lines are to work out the position on screen.
 	*/
-	if (!current.font_size.proportional()) {
+	if (!current.font_size.specified()) {
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-- 
2.43.0

