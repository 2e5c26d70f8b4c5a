From 88cb203b34e502b80182e7e08bc410f5c27cc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:37 +0000
Subject: [PATCH 01/61] fix: compare minutes of UTC times in
 LocalTime::operator<

The minutes of our time in UTC were compared with the minutes of the other
time in its own zone, giving the wrong answer for some pairs of times whose
offsets include minutes.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From cd9ec013df7df22eca2140208b27b4d7536a7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:37 +0000
Subject: [PATCH 02/61] fix: write the sign of negative offsets of less than an
 hour

An offset of -00:30 has an hour of 0, and was written as +00:30.
---
 src/local_time.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..eefbe20 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -198,9 +198,10 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	DCP_ASSERT(written < 32);
 
 	if (with_timezone) {
+		auto const negative = _offset.hour() < 0 || _offset.minute() < 0;
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", (negative ? "-" : "+"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From 95b4c35b482c9b7de26be11d9557bc7d9de80d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:37 +0000
Subject: [PATCH 03/61] fix: read fractional seconds of any length, with or
 without Z

.5 was read as 5ms rather than 500ms, .1Z was refused with a
bad_lexical_cast and anything could follow the third digit.
---
 src/local_time.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index eefbe20..639894d 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -150,15 +150,17 @@ LocalTime::LocalTime (string s)
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_not_of("0123456789", pos + 1);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
-		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		auto milliseconds = s.substr(pos + 1, std::min(static_cast<size_t>(3), end - pos - 1));
+		if (milliseconds.empty()) {
+			throw TimeFormatError(s);
+		}
+		/* .5 is 500 milliseconds, not 5 */
+		milliseconds.resize(3, '0');
+		_millisecond = lexical_cast<int>(milliseconds);
 		pos = end;
 	} else {
 		_millisecond = 0;
-- 
2.43.0


From 98b9b14528240c3ad16dc2f4ab9d7bb198ca1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:37 +0000
Subject: [PATCH 04/61] fix: refuse badly-formatted zones when reading a time

Anything was accepted after a Z, instead of the : in an offset, and a sign
could stand in for a digit.
---
 src/local_time.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 639894d..c1a82c0 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -167,13 +167,18 @@ LocalTime::LocalTime (string s)
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (pos != s.length() && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-		if ((s.length() - pos) != 6) {
+		if ((s.length() - pos) != 6 || s[pos + 3] != ':') {
 			throw TimeFormatError(s);
 		}
+		for (auto i: { 1, 2, 4, 5 }) {
+			if (s[pos + i] < '0' || s[pos + i] > '9') {
+				throw TimeFormatError(s);
+			}
+		}
 
 		_offset.set_hour(lexical_cast<int>(s.substr(pos + 1, 2)));
 		_offset.set_minute(lexical_cast<int>(s.substr(pos + 4, 2)));
-- 
2.43.0


From e236baa96b7d2c332386383b1d557596b277ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:37 +0000
Subject: [PATCH 05/61] fix: refuse signs in the fields of a time that is being
 read

2013-+1-05 was accepted as January, and 2013--1-05 as month -1.
---
 src/local_time.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/local_time.cc b/src/local_time.cc
index c1a82c0..2d5d479 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -139,6 +139,12 @@ LocalTime::LocalTime (string s)
 		throw TimeFormatError(s);
 	}
 
+	for (auto i: { 0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18 }) {
+		if (s[i] < '0' || s[i] > '9') {
+			throw TimeFormatError(s);
+		}
+	}
+
 	_year = lexical_cast<int>(s.substr(0, 4));
 	_month = lexical_cast<int>(s.substr(5, 2));
 	_day = lexical_cast<int>(s.substr(8, 2));
-- 
2.43.0


From e6c521969581c6a6e37606fce3104558970b2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:30 +0000
Subject: [PATCH 06/61] fix: keep a moved ScopeGuard cancelled if it was
 cancelled before the move

---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From f81e2e8a58cce41c366c9d21b4e586eb73e453e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:14 +0000
Subject: [PATCH 07/61] fix: make assignment of an open File to another open
 File take effect

The self-assignment test compared whether the two were open rather than
whether they were the same object, and the path was not taken over.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From b29736764bd674e4fa6732114eb96ba9cef88807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:54 +0000
Subject: [PATCH 08/61] fix: notice write errors that only happen when a file
 is closed

Data::write did not look at the result of closing the file, so data still
in the buffer could be lost without an error, and write_via_temp would
then replace the destination with an incomplete file.
---
 src/data.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.cc b/src/data.cc
index a26d4d1..f45354d 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -57,6 +57,10 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+	/* Some or all of the data may only be written now */
+	if (fclose(f.take()) != 0) {
+		throw FileError ("could not write to file", file, errno);
+	}
 }
 
 
-- 
2.43.0


From b517af0b14f5233833f51dae2106fe8a67338649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:42 +0000
Subject: [PATCH 09/61] fix: keep .. at the root when canonicalising paths that
 may not exist

weakly_canonical() took the parent of "/" to be the empty path, so "/../a"
became the relative path "a".
---
 src/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..466ff15 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -160,7 +160,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 			boost::system::error_code ec;
 			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
 				result /= part;
-			} else {
+			} else if (result != result.root_path()) {
 				result = result.parent_path();
 			}
 		} else if (part != ".") {
-- 
2.43.0


From e44b2f5046dc49be2f0909d3d56123b23b82657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:51 +0000
Subject: [PATCH 10/61] fix: iterate over long paths on Windows

The iterators tested a macro that nothing defines, so directories with
long paths could not be listed on Windows.  Entries now hold the ordinary
form of the path, which also avoids returning a reference to a temporary.
---
 src/filesystem.cc | 43 ++-----------------------------------------
 1 file changed, 2 insertions(+), 41 deletions(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 466ff15..2e2fbd7 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -313,8 +313,6 @@ dcp::filesystem::change_extension(boost::filesystem::path const& path, std::stri
 }
 
 
-#ifdef DCPOMATIC_WINDOWS
-
 dcp::filesystem::directory_iterator::directory_iterator(boost::filesystem::path const& path)
 	: _wrapped(dcp::filesystem::fix_long_path(path))
 {
@@ -329,41 +327,6 @@ dcp::filesystem::directory_iterator::directory_iterator(boost::filesystem::path
 }
 
 
-boost::filesystem::path
-dcp::filesystem::directory_entry::path() const
-{
-	return dcp::filesystem::unfix_long_path(_path);
-}
-
-
-dcp::filesystem::directory_entry::operator boost::filesystem::path const &() const
-{
-	return dcp::filesystem::unfix_long_path(_path);
-}
-
-
-dcp::filesystem::recursive_directory_iterator::recursive_directory_iterator(boost::filesystem::path const& path)
-	: _wrapped(dcp::filesystem::fix_long_path(path))
-{
-
-}
-
-#else
-
-dcp::filesystem::directory_iterator::directory_iterator(boost::filesystem::path const& path)
-	: _wrapped(path)
-{
-
-}
-
-
-dcp::filesystem::directory_iterator::directory_iterator(boost::filesystem::path const& path, boost::system::error_code& ec)
-	: _wrapped(path, ec)
-{
-
-}
-
-
 boost::filesystem::path
 dcp::filesystem::directory_entry::path() const
 {
@@ -378,16 +341,14 @@ dcp::filesystem::directory_entry::operator boost::filesystem::path const &() con
 
 
 dcp::filesystem::recursive_directory_iterator::recursive_directory_iterator(boost::filesystem::path const& path)
-	: _wrapped(path)
+	: _wrapped(dcp::filesystem::fix_long_path(path))
 {
 
 }
 
-#endif
-
 
 dcp::filesystem::directory_entry::directory_entry(boost::filesystem::path const& path)
-	: _path(path)
+	: _path(dcp::filesystem::unfix_long_path(path))
 {
 
 }
-- 
2.43.0


From 351820e35029e937891109ff4c2bc7ca5d10fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:37:26 +0000
Subject: [PATCH 11/61] fix: use the requested range in the upper part of the
 S-Gamut3 curve

The part above the break was computed from the position in the table instead of from
the value at that position, so tables over part of the range were wrong.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..5f5d0d0 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From fa467c146f0917f8c93afef5a975bbfe43f72008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:37:26 +0000
Subject: [PATCH 12/61] fix: break of the inverse S-Gamut3 curve

The break of the linear side is at 0.01125; dividing it by 1023 took the logarithmic
part for nearly all of the linear segment, so the inverse did not undo the curve there.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 5f5d0d0..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
-- 
2.43.0


From 855fdba98d58b8efdd2f8c9bdb40515a622df6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:31 +0000
Subject: [PATCH 13/61] fix: use the whole length of each operand in division
 of Time

The seconds were multiplied by the fraction of a second instead of being added
to it, and the lengths were then truncated to whole seconds, so that for
example dividing one second by two seconds gave NaN.
---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..c9d7f43 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -322,9 +322,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From 018fbeef869a2674aa0b2ebd16497f64657ddbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:31 +0000
Subject: [PATCH 14/61] fix: compare Times without overflowing

The sum of two times with different timecode rates has the product of the
rates as its own.  Comparing it with another time multiplied its editable
units by the other rate in an int, which overflowed.
---
 src/dcp_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index c9d7f43..eed604a 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -172,7 +172,7 @@ Time::Time (string time, optional<int> tcr_)
 bool
 dcp::operator== (Time const & a, Time const & b)
 {
-	return (a.h == b.h && a.m == b.m && a.s == b.s && (a.e * b.tcr) == (b.e * a.tcr));
+	return (a.h == b.h && a.m == b.m && a.s == b.s && (int64_t(a.e) * b.tcr) == (int64_t(b.e) * a.tcr));
 }
 
 
@@ -212,7 +212,7 @@ dcp::operator< (Time const & a, Time const & b)
 		return a.s < b.s;
 	}
 
-	return (a.e * b.tcr) < (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) < (int64_t(b.e) * a.tcr);
 }
 
 
@@ -231,7 +231,7 @@ dcp::operator> (Time const & a, Time const & b)
 		return a.s > b.s;
 	}
 
-	return (a.e * b.tcr) > (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) > (int64_t(b.e) * a.tcr);
 }
 
 
-- 
2.43.0


From e22c3bd1608fdd7587ef0ce79d07e1df7567bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:07 +0000
Subject: [PATCH 15/61] fix: carry into the seconds when a Time's editable
 units round up

A Time made from a number of seconds, or from a frame count, could have as
many editable units as there are in a second: 59.999s at 24 units per second
became 00:00:59:24.
---
 src/dcp_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index eed604a..ee6c7ff 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,10 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e >= tcr) {
+		e -= tcr;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From 4ba49e6cc9af8237d829dea351b06c7d6c78d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:57 +0000
Subject: [PATCH 16/61] fix: find Interop CPLs when making summaries

The type in an Interop PKL carries a parameter, which must be removed before
the type is compared.
---
 src/dcp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dcp.cc b/src/dcp.cc
index 23b4ad4..eecee51 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -666,6 +666,8 @@ DCP::cpl_summaries() const
 			continue;
 		}
 
+		pkl_type = remove_parameters(*pkl_type);
+
 		if (
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::INTEROP)) ||
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::SMPTE))) {
-- 
2.43.0


From 72cc18d0582ba6090370861d910b87ed083fb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:57 +0000
Subject: [PATCH 17/61] fix: forget the hash of a text asset when it is written

Otherwise an asset that is written, hashed, changed and written again gives
a PKL the hash of its old contents.
---
 src/interop_text_asset.cc | 2 +-
 src/smpte_text_asset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..0106ef0 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -204,7 +204,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 	/* length() here gives bytes not characters */
 	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
 
-	_file = p;
+	set_file(p);
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..52cf492 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -500,7 +500,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	writer.Finalize ();
 
-	_file = p;
+	set_file(p);
 }
 
 bool
-- 
2.43.0


From c7f28c79e59d0c132f69ef85bbb20f9eac85e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:57 +0000
Subject: [PATCH 18/61] fix: handle Interop image subtitles in PKLs like any
 other asset

Images which are not inside the DCP were listed in the PKL though they are not
in the ASSETMAP, and the name of the DCP's directory was given as the original
file name of every image.
---
 src/interop_text_asset.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 0106ef0..f6bfaa9 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -302,8 +302,13 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 	for (auto i: _texts) {
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
+			DCP_ASSERT(im->file());
+			if (!relative_to_root(filesystem::canonical(root), filesystem::canonical(im->file().get()))) {
+				/* This image is in another DCP */
+				continue;
+			}
 			auto png_image = im->png_image ();
-			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
+			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", im->file()->filename().string());
 		}
 	}
 }
-- 
2.43.0


From f9fe391dfb0dde948e3baa3f0fbbe2fe26f12b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:23 +0000
Subject: [PATCH 19/61] fix: give new CPLs an issuer and creator made of text

The default issuer and creator were built from two unrelated pointers
(the iterator-pair constructor of std::string), which took in whatever
memory was between them or threw.
---
 src/cpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..fa4e885 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -94,8 +94,8 @@ auto constexpr profile_tag = "DCP Constraints Profile";
 
 CPL::CPL(string annotation_text, ContentKind content_kind, Standard standard, Profile profile)
 	/* default _content_title_text to annotation_text */
-	: _issuer("libdcp", dcp::version)
-	, _creator("libdcp", dcp::version)
+	: _issuer(String::compose("libdcp %1", dcp::version))
+	, _creator(String::compose("libdcp %1", dcp::version))
 	, _issue_date(LocalTime().as_string())
 	, _annotation_text(annotation_text)
 	, _content_title_text(annotation_text)
-- 
2.43.0


From 221fc016b1ebadbf2dcf2795a01bfb34f3ec6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:23 +0000
Subject: [PATCH 20/61] fix: write the scope of the release territory that was
 read

A CPL which had been read with a scope for its ReleaseTerritory lost it
when it was written again.
---
 src/cpl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index fa4e885..c53ac4e 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto territory = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		territory->add_child_text(*_release_territory);
+		if (_release_territory_scope) {
+			territory->set_attribute("scope", *_release_territory_scope);
+		}
 	}
 
 	if (_version_number) {
-- 
2.43.0


From 31b5b66dfb4e72536faa481c3a5531040bbb3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:23 +0000
Subject: [PATCH 21/61] fix: look for the first subtitle language in every reel
 when reading a CPL

The language of the first subtitle in any reel is written at the head of
MainSubtitleLanguageList, but it was only recognised on reading if that
subtitle was in the first reel.  Otherwise it was taken for an additional
language and repeated when the CPL was next written.
---
 src/cpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index c53ac4e..c2b8c0a 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -354,13 +354,13 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 
 		/* If the first language on SubtitleLanguageList is the same as the language of the first subtitle we'll ignore it */
 		size_t first = 0;
-		if (!_reels.empty()) {
-			auto sub = _reels.front()->main_subtitle();
-			if (sub) {
-				auto lang = sub->language();
-				if (lang && lang == sll_split[0]) {
+		for (auto reel: _reels) {
+			auto sub = reel->main_subtitle();
+			if (sub && sub->language()) {
+				if (*sub->language() == sll_split[0]) {
 					first = 1;
 				}
+				break;
 			}
 		}
 
-- 
2.43.0


From f8e9d9ceabd6779b66e1353ea77166216e111bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:12 +0000
Subject: [PATCH 22/61] fix: stop at the end of a truncated JPEG2000 frame

The read callback that decompress_j2k() gives to OpenJPEG returned 0 when
there was nothing left.  OpenJPEG takes -1 as the end of the stream and asks
again after 0, so decoding a frame that ends early never finished.
---
 src/j2k_transcode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 664d18a..72d7508 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -82,6 +82,10 @@ public:
 	OPJ_SIZE_T read (void* buffer, OPJ_SIZE_T nb_bytes)
 	{
 		int64_t N = min (nb_bytes, _size - _offset);
+		if (N == 0) {
+			/* OpenJPEG takes this to mean the end of the stream; 0 would make it try again for ever */
+			return static_cast<OPJ_SIZE_T>(-1);
+		}
 		memcpy (buffer, _data + _offset, N);
 		_offset += N;
 		return N;
-- 
2.43.0


From 23dcc7b83d63a743672f8b13fbbd26db324fb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:09 +0000
Subject: [PATCH 23/61] fix: consider captions and closed subtitles when asking
 if a reel is encrypted

Reel::any_encrypted() and Reel::all_encrypted() only looked at the picture,
sound, subtitle, closed captions and Atmos.
---
 src/reel.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..743538b 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -302,10 +302,19 @@ Reel::any_encrypted () const
 		}
 	}
 
+	auto ecs = false;
+	for (auto i: _closed_subtitles) {
+		if (i->encrypted()) {
+			ecs = true;
+		}
+	}
+
 	return (
 		(_main_picture && _main_picture->encrypted()) ||
 		(_main_sound && _main_sound->encrypted()) ||
 		(_main_subtitle && _main_subtitle->encrypted()) ||
+		(_main_caption && _main_caption->encrypted()) ||
+		ecs ||
 		ecc ||
 		(_atmos && _atmos->encrypted())
 		);
@@ -322,10 +331,19 @@ Reel::all_encrypted () const
 		}
 	}
 
+	auto ecs = true;
+	for (auto i: _closed_subtitles) {
+		if (!i->encrypted()) {
+			ecs = false;
+		}
+	}
+
 	return (
 		(!_main_picture || _main_picture->encrypted()) &&
 		(!_main_sound || _main_sound->encrypted()) &&
 		(!_main_subtitle || _main_subtitle->encrypted()) &&
+		(!_main_caption || _main_caption->encrypted()) &&
+		ecs &&
 		ecc &&
 		(!_atmos || _atmos->encrypted())
 	       );
-- 
2.43.0


From 43418488e395b602fe9f7e2cd7d2c55d17c4864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:09 +0000
Subject: [PATCH 24/61] fix: give keys to captions and closed subtitles

Reel::give_kdm_to_assets() passed a KDM's keys to the other kinds of asset
only, so encrypted captions and closed subtitles could never be read.
---
 src/reel.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 743538b..c19fc27 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -378,6 +378,18 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 				smpte->smpte_asset()->set_key(i.key());
 			}
 		}
+		if (_main_caption) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_caption);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
+		for (auto j: _closed_subtitles) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
 		for (auto j: _closed_captions) {
 			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-- 
2.43.0


From 01bf04435c41ece54c63b3c43479080d5d736e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:09 +0000
Subject: [PATCH 25/61] fix: compare captions and closed subtitles when
 comparing reels

Reel::equals() did not look at them, so two reels whose captions or closed
subtitles differed were said to be the same.
---
 src/reel.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index c19fc27..7ced8a2 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -255,6 +255,15 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note (NoteType::ERROR, "Reel: caption assets differ");
+		return false;
+	}
+
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
 	if ((_main_markers && !other->_main_markers) || (!_main_markers && other->_main_markers)) {
 		note (NoteType::ERROR, "Reel: one has markers and the other does not");
 		return false;
@@ -265,6 +274,17 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if (_closed_subtitles.size() != other->_closed_subtitles.size()) {
+		note (NoteType::ERROR, "Reel: closed subtitle assets differ");
+		return false;
+	}
+
+	for (size_t k = 0; k < _closed_subtitles.size(); ++k) {
+		if (!_closed_subtitles[k]->equals(other->_closed_subtitles[k], opt, note)) {
+			return false;
+		}
+	}
+
 	if (_closed_captions.size() != other->_closed_captions.size()) {
 		return false;
 	}
-- 
2.43.0


From cb95d0ccf6a0f4fad1d65bacfd6d93155c07f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:06 +0000
Subject: [PATCH 26/61] fix: make a KDM for a CPL from its encrypted assets
 only

Assets which could be encrypted but are not have no key ID, so asking
for it was an error.
---
 src/decrypted_kdm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..2efe6b3 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -304,10 +304,10 @@ DecryptedKDM::DecryptedKDM (
 	, _content_title_text (content_title_text)
 	, _issue_date (issue_date)
 {
-	/* Create DecryptedKDMKey objects for each encryptable asset */
+	/* Create DecryptedKDMKey objects for each encrypted asset */
 	bool did_one = false;
 	for (auto i: cpl->reel_file_assets()) {
-		if (i->encryptable()) {
+		if (i->encrypted()) {
 			add_key (i->key_type().get(), i->key_id().get(), key, cpl->id(), Standard::SMPTE);
 			did_one = true;
 		}
-- 
2.43.0


From ecc6505a6e86bb7774a525af7d7bb809ff2ee0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:13 +0000
Subject: [PATCH 27/61] fix: keep the content authenticator of a KDM that is
 read

It was not read, so writing the KDM again gave a different document
whose signature was no longer right.
---
 src/encrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..f0e066b 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -398,6 +398,7 @@ public:
 	explicit KDMRequiredExtensions (shared_ptr<const cxml::Node> node)
 		: recipient (node->node_child ("Recipient"))
 		, composition_playlist_id (remove_urn_uuid (node->string_child ("CompositionPlaylistId")))
+		, content_authenticator (node->optional_string_child ("ContentAuthenticator"))
 		, content_title_text (node->string_child ("ContentTitleText"))
 		, not_valid_before (node->string_child ("ContentKeysNotValidBefore"))
 		, not_valid_after (node->string_child ("ContentKeysNotValidAfter"))
-- 
2.43.0


From 263c84e371f745fd00138cc2a9989b5b0ffe3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:03 +0000
Subject: [PATCH 28/61] fix: clip loud integer samples to the largest 24-bit
 value

Integer samples above full scale were limited to 2^23, which does not fit
in 24 bits: it was stored as the most negative value instead.
---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From d459727242d3cf3d34f74cc3e1366dbd5eb1e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:03 +0000
Subject: [PATCH 29/61] fix: put the right part of the ID in sync packets at
 high frame rates

Above 30 fps an edit unit has fewer than four sync packets.  They always
carried the first bytes of the ID, whatever index they were marked with, so
its second half (at 96 fps and above, all but its first quarter) was never
sent.
---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From cd19b09f6c7d7563f58f82dec0e79ac843f75296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:03 +0000
Subject: [PATCH 30/61] fix: read 16-bit samples as signed

Negative samples in 16-bit sound came back as large positive ones.
---
 src/sound_frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_frame.cc b/src/sound_frame.cc
index 4d90c9c..6260351 100644
--- a/src/sound_frame.cc
+++ b/src/sound_frame.cc
@@ -70,7 +70,7 @@ SoundFrame::get (int channel, int frame) const
 	case 16:
 	{
 		uint8_t const * d = data() + (frame * _channels * 2) + (channel * 2);
-		return d[0] | (d[1] << 8);
+		return static_cast<int16_t>(d[0] | (d[1] << 8));
 	}
 	default:
 		DCP_ASSERT(false);
-- 
2.43.0


From 66b2ca7434a68e79221d0b39f70d3ec13412afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:49 +0000
Subject: [PATCH 31/61] fix: say that 3D and 2D pictures differ rather than
 throwing

Comparing a StereoJ2KPictureAsset with any other kind of asset tried to
open that asset's file as a stereo one, and threw when it could not.
MonoJ2KPictureAsset already returns false in this case.
---
 src/stereo_j2k_picture_asset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stereo_j2k_picture_asset.cc b/src/stereo_j2k_picture_asset.cc
index d403ed4..f3609b2 100644
--- a/src/stereo_j2k_picture_asset.cc
+++ b/src/stereo_j2k_picture_asset.cc
@@ -106,6 +106,10 @@ StereoJ2KPictureAsset::start_read () const
 bool
 StereoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
+	if (!dynamic_pointer_cast<const StereoJ2KPictureAsset>(other)) {
+		return false;
+	}
+
 	Kumu::FileReaderFactory factory;
 	ASDCP::JP2K::MXFSReader reader_A(factory);
 	DCP_ASSERT (file());
-- 
2.43.0


From f5fb2dbec3f7fe55d22573ba7acb3023652f4b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:49 +0000
Subject: [PATCH 32/61] fix: pictures of different lengths are not equal

A difference in duration was noted, but then only as many frames as the
first picture has were compared.  A picture was found equal to a longer
one that starts with the same frames, and comparing it the other way
round with keep_going set threw an exception.
---
 src/j2k_picture_asset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 9879225..4134c90 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -121,6 +121,7 @@ J2KPictureAsset::descriptor_equals (
 
 	if (a.ContainerDuration != b.ContainerDuration) {
 		note (NoteType::ERROR, "video container durations differ");
+		return false;
 	}
 
 //		for (unsigned int j = 0; j < ASDCP::JP2K::MaxComponents; ++j) {
-- 
2.43.0


From 182c82ce283cf5f2f8b4d4d808138c92ea9ea694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:49 +0000
Subject: [PATCH 33/61] fix: do not lose fractions when finding the deviation
 of picture differences

The sum of the squared deviations was an integer, so the fractional part
was dropped for each sample.  The deviation of small differences could
come out as 0.
---
 src/j2k_picture_asset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 4134c90..fa3080e 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -178,12 +178,12 @@ J2KPictureAsset::frame_buffer_equals (
 
 	double const mean = double (total) / abs_diffs.size ();
 
-	uint64_t total_squared_deviation = 0;
+	double total_squared_deviation = 0;
 	for (auto j: abs_diffs) {
 		total_squared_deviation += pow (j - mean, 2);
 	}
 
-	auto const std_dev = sqrt (double (total_squared_deviation) / abs_diffs.size());
+	auto const std_dev = sqrt (total_squared_deviation / abs_diffs.size());
 
 	note (NoteType::NOTE, String::compose("mean difference %1 deviation %2", mean, std_dev));
 
-- 
2.43.0


From 4644f46aa7868b5667b36a633eb4195ce872512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:16 +0000
Subject: [PATCH 34/61] fix: do not lose bold inside a Font with no Weight

A Font inside another took "no Weight" to mean "not bold", although everything
else that it does not mention is taken from the Font around it.
---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d690a27..91e0d1d 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -146,7 +146,9 @@ TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 	ps.size = optional_number_attribute<int64_t> (node, "Size");
 	ps.aspect_adjust = optional_number_attribute<float> (node, "AspectAdjust");
 	ps.italic = optional_bool_attribute (node, "Italic");
-	ps.bold = optional_string_attribute(node, "Weight").get_value_or("normal") == "bold";
+	if (auto weight = optional_string_attribute(node, "Weight")) {
+		ps.bold = *weight == "bold";
+	}
 	if (standard == Standard::INTEROP) {
 		ps.underline = optional_bool_attribute (node, "Underlined");
 	} else {
-- 
2.43.0


From ecbb664a4af5138d53f3568bd931d1a5dc515753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:16 +0000
Subject: [PATCH 35/61] fix: escape attribute values when writing subtitle XML

A font ID with & or < or " in it gave a file which is not XML.
---
 src/text_asset.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 91e0d1d..a9042c2 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -953,16 +953,33 @@ struct State
 }
 
 
+static
+string
+escape(string content)
+{
+	boost::replace_all(content, "&", "&amp;");
+	boost::replace_all(content, "<", "&lt;");
+	boost::replace_all(content, ">", "&gt;");
+	return content;
+}
+
+
+static
+string
+format_attribute(xmlpp::Attribute const* attribute)
+{
+	auto value = escape(attribute->get_value());
+	boost::replace_all(value, "\"", "&quot;");
+	return " " + attribute->get_name() + "=\"" + value + "\"";
+}
+
+
 static
 void
 format_xml_node (xmlpp::Node const* node, State& state)
 {
 	if (auto text_node = dynamic_cast<const xmlpp::TextNode*>(node)) {
-		string content = text_node->get_content();
-		boost::replace_all(content, "&", "&amp;");
-		boost::replace_all(content, "<", "&lt;");
-		boost::replace_all(content, ">", "&gt;");
-		state.xml += content;
+		state.xml += escape(text_node->get_content());
 	} else if (auto element = dynamic_cast<const xmlpp::Element*>(node)) {
 		++state.indent;
 
@@ -980,7 +997,7 @@ format_xml_node (xmlpp::Node const* node, State& state)
 		state.xml += "<" + element->get_name();
 
 		for (auto attribute: element->get_attributes()) {
-			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+			state.xml += format_attribute(attribute);
 		}
 
 		if (children.empty()) {
@@ -1037,7 +1054,7 @@ TextAsset::format_xml(xmlpp::Document const& document, optional<pair<string, str
 	}
 
 	for (auto attribute: root->get_attributes()) {
-		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+		state.xml += format_attribute(attribute);
 	}
 
 	state.xml += ">";
-- 
2.43.0


From 0c422e4aef96e40606ad40cf63bdc401be442901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:16 +0000
Subject: [PATCH 36/61] fix: keep strings with different variable Z positions
 apart

A string that differed from the one before it only in its variable Z
positions was written with the positions of that other one.
---
 src/text_asset.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index a9042c2..c0a23cc 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -792,6 +792,7 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 	VAlign last_v_align;
 	float last_v_position;
 	float last_z_position;
+	vector<Text::VariableZPosition> last_variable_z_positions;
 	Direction last_direction;
 	int load_variable_z_index = 1;
 
@@ -821,6 +822,7 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 			    last_v_align != is->v_align() ||
 			    fabs(last_v_position - is->v_position()) > ALIGN_EPSILON ||
 			    fabs(last_z_position - is->z_position()) > ALIGN_EPSILON ||
+			    last_variable_z_positions != is->variable_z_positions() ||
 			    last_direction != is->direction()
 				) {
 				text = make_shared<order::Text>(
@@ -841,6 +843,7 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 				last_v_align = is->v_align ();
 				last_v_position = is->v_position ();
 				last_z_position = is->z_position();
+				last_variable_z_positions = is->variable_z_positions();
 				last_direction = is->direction ();
 			}
 
-- 
2.43.0


From 281fd8a879f117b0f2f14cca665ace3dfe8f6872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:59 +0000
Subject: [PATCH 37/61] fix: keep the Rubies of a Text whose strings are inside
 a Font

The Rubies of a Text were only given to strings directly inside it, so they
were lost when its strings had different fonts.
---
 src/text_asset.cc | 10 +++++-----
 src/text_asset.h  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index c0a23cc..8aab896 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -321,7 +321,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		return all_content;
 	};
 
-	vector<Ruby> rubies;
+	auto& rubies = state.back().rubies;
 	for (auto child: node->get_children()) {
 		auto element = dynamic_cast<xmlpp::Element const*>(child);
 		if (element && element->get_name() == "Ruby") {
@@ -381,7 +381,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		/* Handle actual content e.g. text */
 		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
 		if (v) {
-			maybe_add_text(v->get_content(), state, space_before, standard, rubies);
+			maybe_add_text(v->get_content(), state, space_before, standard);
 			space_before = 0;
 		}
 
@@ -413,8 +413,7 @@ TextAsset::maybe_add_text(
 	string text,
 	vector<ParseState> const & parse_state,
 	float space_before,
-	Standard standard,
-	vector<Ruby> const& rubies
+	Standard standard
 	)
 {
 	auto wanted = [](ParseState const& ps) {
@@ -490,6 +489,7 @@ TextAsset::maybe_add_text(
 		if (i.type) {
 			ps.type = i.type.get();
 		}
+		ps.rubies.insert(ps.rubies.end(), i.rubies.begin(), i.rubies.end());
 		for (auto j: i.load_variable_z) {
 			/* j is a LoadVariableZ from this "sub" ParseState. See if we should add it to the end result */
 			auto const k = std::find_if(ps.load_variable_z.begin(), ps.load_variable_z.end(), [j](LoadVariableZ const& z) { return j.id() == z.id(); });
@@ -538,7 +538,7 @@ TextAsset::maybe_add_text(
 				ps.fade_up_time.get_value_or(Time()),
 				ps.fade_down_time.get_value_or(Time()),
 				space_before,
-				rubies
+				ps.rubies
 				)
 			);
 		break;
diff --git a/src/text_asset.h b/src/text_asset.h
index 3055269..71010a2 100644
--- a/src/text_asset.h
+++ b/src/text_asset.h
@@ -171,6 +171,7 @@ protected:
 		float space_before = 0;
 
 		std::vector<LoadVariableZ> load_variable_z;
+		std::vector<Ruby> rubies;
 	};
 
 	void parse_texts(xmlpp::Element const * node, std::vector<ParseState>& state, boost::optional<int> tcr, Standard standard);
@@ -226,8 +227,7 @@ private:
 		std::string text,
 		std::vector<ParseState> const & parse_state,
 		float space_before,
-		Standard standard,
-		std::vector<Ruby> const& rubies
+		Standard standard
 		);
 
 	static void pull_fonts (std::shared_ptr<order::Part> part);
-- 
2.43.0


From ed48e7341e438d9fc381e945eaa7a1a964e9545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:59 +0000
Subject: [PATCH 38/61] fix: do not take XML comments for subtitles

A comment inside a Text was read as if its content should be shown.
---
 src/text_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 8aab896..94f4979 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -380,7 +380,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 
 		/* Handle actual content e.g. text */
 		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
-		if (v) {
+		if (v && !dynamic_cast<xmlpp::CommentNode const*>(i) && !dynamic_cast<xmlpp::ProcessingInstructionNode const*>(i)) {
 			maybe_add_text(v->get_content(), state, space_before, standard);
 			space_before = 0;
 		}
-- 
2.43.0


From 0be8c3950777aed9fd190843e3b0cb6170ea331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:59 +0000
Subject: [PATCH 39/61] fix: give a Space before a Font to the string in that
 Font

The Space was given to the next string after the Font, or lost if there was
none.
---
 src/text_asset.cc | 14 +++++++-------
 src/text_asset.h  |  1 -
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 94f4979..3076d7f 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -307,8 +307,6 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		throw XMLError ("unexpected node " + node->get_name());
 	}
 
-	float space_before = 0;
-
 	/* Collect <Ruby>s first */
 	auto get_text_content = [](xmlpp::Element const* element) {
 		string all_content;
@@ -381,8 +379,10 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		/* Handle actual content e.g. text */
 		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
 		if (v && !dynamic_cast<xmlpp::CommentNode const*>(i) && !dynamic_cast<xmlpp::ProcessingInstructionNode const*>(i)) {
-			maybe_add_text(v->get_content(), state, space_before, standard);
-			space_before = 0;
+			maybe_add_text(v->get_content(), state, standard);
+			for (auto& j: state) {
+				j.space_before = 0;
+			}
 		}
 
 		/* Handle other nodes */
@@ -396,7 +396,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 				if (standard == dcp::Standard::INTEROP) {
 					boost::replace_all(size, "em", "");
 				}
-				space_before += raw_convert<float>(size);
+				state.back().space_before += raw_convert<float>(size);
 			} else if (e->get_name() != "Ruby") {
 				parse_texts (e, state, tcr, standard);
 			}
@@ -412,7 +412,6 @@ void
 TextAsset::maybe_add_text(
 	string text,
 	vector<ParseState> const & parse_state,
-	float space_before,
 	Standard standard
 	)
 {
@@ -489,6 +488,7 @@ TextAsset::maybe_add_text(
 		if (i.type) {
 			ps.type = i.type.get();
 		}
+		ps.space_before += i.space_before;
 		ps.rubies.insert(ps.rubies.end(), i.rubies.begin(), i.rubies.end());
 		for (auto j: i.load_variable_z) {
 			/* j is a LoadVariableZ from this "sub" ParseState. See if we should add it to the end result */
@@ -537,7 +537,7 @@ TextAsset::maybe_add_text(
 				ps.effect_colour.get_value_or (dcp::Colour (0, 0, 0)),
 				ps.fade_up_time.get_value_or(Time()),
 				ps.fade_down_time.get_value_or(Time()),
-				space_before,
+				ps.space_before,
 				ps.rubies
 				)
 			);
diff --git a/src/text_asset.h b/src/text_asset.h
index 71010a2..8b7f871 100644
--- a/src/text_asset.h
+++ b/src/text_asset.h
@@ -226,7 +226,6 @@ private:
 	void maybe_add_text(
 		std::string text,
 		std::vector<ParseState> const & parse_state,
-		float space_before,
 		Standard standard
 		);
 
-- 
2.43.0


From 45c95bae22a980fefc0e1077d672fccdfd44eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:37 +0000
Subject: [PATCH 40/61] fix: write a Space before a Font, not inside it

A Space is not allowed inside a Font, and files which had one there could not
be read back: "Space node found outside Text".
---
 src/text_asset.cc          |  4 ++--
 src/text_asset_internal.cc | 21 ++++++++++++++++++---
 src/text_asset_internal.h  |  7 +++++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 3076d7f..990f64d 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -738,13 +738,13 @@ TextAsset::pull_fonts(shared_ptr<order::Part> part)
 
 	while (i != part->children.end()) {
 
-		if ((*i)->font.empty ()) {
+		if ((*i)->font.empty() || (*i)->has_space()) {
 			merged.push_back (*i);
 			++i;
 		} else {
 			auto j = i;
 			++j;
-			while (j != part->children.end() && (*i)->font == (*j)->font) {
+			while (j != part->children.end() && (*i)->font == (*j)->font && !(*j)->has_space()) {
 				++j;
 			}
 			if (std::distance (i, j) == 1) {
diff --git a/src/text_asset_internal.cc b/src/text_asset_internal.cc
index 4ae5dbf..9a1cacb 100644
--- a/src/text_asset_internal.cc
+++ b/src/text_asset_internal.cc
@@ -137,10 +137,17 @@ order::Part::as_xml (xmlpp::Element* parent, Context &) const
 }
 
 
-xmlpp::Element*
-order::String::as_xml (xmlpp::Element* parent, Context& context) const
+bool
+order::String::has_space() const
+{
+	return fabs(_space_before) > SPACE_BEFORE_EPSILON;
+}
+
+
+void
+order::String::write_space(xmlpp::Element* parent, Context& context) const
 {
-	if (fabs(_space_before) > SPACE_BEFORE_EPSILON) {
+	if (has_space()) {
 		auto space = cxml::add_child(parent, "Space");
 		auto size = fmt::format("{:.2}", _space_before);
 		if (context.standard == Standard::INTEROP) {
@@ -148,6 +155,12 @@ order::String::as_xml (xmlpp::Element* parent, Context& context) const
 		}
 		space->set_attribute("Size", size);
 	}
+}
+
+
+xmlpp::Element*
+order::String::as_xml(xmlpp::Element* parent, Context&) const
+{
 	parent->add_child_text (_text);
 	return 0;
 }
@@ -156,6 +169,8 @@ order::String::as_xml (xmlpp::Element* parent, Context& context) const
 void
 order::Part::write_xml (xmlpp::Element* parent, order::Context& context) const
 {
+	write_space(parent, context);
+
 	if (!font.empty ()) {
 		parent = font.as_xml (parent, context);
 	}
diff --git a/src/text_asset_internal.h b/src/text_asset_internal.h
index 2dfccce..5443ea2 100644
--- a/src/text_asset_internal.h
+++ b/src/text_asset_internal.h
@@ -118,6 +118,11 @@ public:
 
 	virtual ~Part () {}
 
+	/** Write anything that must come before (rather than inside) our <Font> */
+	virtual void write_space(xmlpp::Element*, Context&) const {}
+	virtual bool has_space() const {
+		return false;
+	}
 	virtual xmlpp::Element* as_xml (xmlpp::Element* parent, Context &) const;
 	void write_xml (xmlpp::Element* parent, order::Context& context) const;
 
@@ -136,6 +141,8 @@ public:
 		, _space_before (space_before)
 	{}
 
+	void write_space(xmlpp::Element* parent, Context& context) const override;
+	bool has_space() const override;
 	virtual xmlpp::Element* as_xml (xmlpp::Element* parent, Context &) const override;
 
 private:
-- 
2.43.0


From 6f9aff921806174ab9096173a940da7de421bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:37 +0000
Subject: [PATCH 41/61] fix: report a failure to finalize a subtitle MXF

---
 src/smpte_text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 52cf492..3553a2f 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -498,7 +498,10 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 		}
 	}
 
-	writer.Finalize ();
+	r = writer.Finalize();
+	if (ASDCP_FAILURE(r)) {
+		throw_from_asdcplib(r, p, MXFFileError("could not finalize subtitle MXF", p.string(), r));
+	}
 
 	set_file(p);
 }
-- 
2.43.0


From a203e65be6c515569dea9edb65c550fb8bffb592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:37 +0000
Subject: [PATCH 42/61] fix: report a failure to read the XML of a subtitle MXF

With the wrong key, for example, the failure was ignored and then an error
about malformed XML was given.
---
 src/smpte_text_asset.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 3553a2f..5fadd1d 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -107,7 +107,10 @@ SMPTETextAsset::SMPTETextAsset(boost::filesystem::path file)
 		if (!_key_id) {
 			/* Not encrypted; read it in now */
 			string xml_string;
-			reader->ReadTimedTextResource (xml_string);
+			auto const read = reader->ReadTimedTextResource(xml_string);
+			if (ASDCP_FAILURE(read)) {
+				boost::throw_exception(ReadError(String::compose("Could not read XML from subtitle MXF (%1)", static_cast<int>(read))));
+			}
 			_raw_xml = xml_string;
 			xml->read_string (xml_string);
 			parse_xml (xml);
@@ -331,7 +334,10 @@ SMPTETextAsset::set_key(Key key)
 
 	auto dec = make_shared<DecryptionContext>(key, Standard::SMPTE);
 	string xml_string;
-	reader->ReadTimedTextResource (xml_string, dec->context(), dec->hmac());
+	r = reader->ReadTimedTextResource(xml_string, dec->context(), dec->hmac());
+	if (ASDCP_FAILURE(r)) {
+		boost::throw_exception(ReadError(String::compose("Could not read XML from subtitle MXF (%1)", static_cast<int>(r))));
+	}
 	_raw_xml = xml_string;
 	auto xml = make_shared<cxml::Document>("SubtitleReel");
 	xml->read_string (xml_string);
-- 
2.43.0


From a5914d20b2bb33fd5b235888ef68547a2bbd7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:37 +0000
Subject: [PATCH 43/61] fix: texts are not equal if the other one has more
 LoadFonts

---
 src/interop_text_asset.cc | 10 +++++-----
 src/smpte_text_asset.cc   | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index f6bfaa9..84de32a 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -158,12 +158,12 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 		auto i = _load_font_nodes.begin();
 		auto j = other->_load_font_nodes.begin();
 
-		while (i != _load_font_nodes.end ()) {
-			if (j == other->_load_font_nodes.end ()) {
-				note (NoteType::ERROR, "<LoadFont> nodes differ");
-				return false;
-			}
+		if (_load_font_nodes.size() != other->_load_font_nodes.size()) {
+			note(NoteType::ERROR, "<LoadFont> nodes differ");
+			return false;
+		}
 
+		while (i != _load_font_nodes.end ()) {
 			if (**i != **j) {
 				note (NoteType::ERROR, "<LoadFont> nodes differ");
 				return false;
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 5fadd1d..9f333f3 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -528,12 +528,12 @@ SMPTETextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions cons
 	auto i = _load_font_nodes.begin();
 	auto j = other->_load_font_nodes.begin();
 
-	while (i != _load_font_nodes.end ()) {
-		if (j == other->_load_font_nodes.end ()) {
-			note (NoteType::ERROR, "<LoadFont> nodes differ");
-			return false;
-		}
+	if (_load_font_nodes.size() != other->_load_font_nodes.size()) {
+		note(NoteType::ERROR, "<LoadFont> nodes differ");
+		return false;
+	}
 
+	while (i != _load_font_nodes.end ()) {
 		if ((*i)->id != (*j)->id) {
 			note (NoteType::ERROR, "<LoadFont> nodes differ");
 			return false;
-- 
2.43.0


From 70d7cda5034ce18bb0a4e89e5e4de6c88cb89071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:37 +0000
Subject: [PATCH 44/61] fix: read subtitle images which are used more than once

Only the first use was given its data, and then it was said to be missing for
the others.
---
 src/smpte_text_asset.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 9f333f3..46285d0 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -266,13 +266,11 @@ SMPTETextAsset::read_mxf_resources(shared_ptr<ASDCP::TimedText::MXFReader> reade
 		}
 		case ASDCP::TimedText::MT_PNG:
 		{
-			auto j = _texts.begin();
-			while (j != _texts.end() && ((!dynamic_pointer_cast<TextImage>(*j)) || dynamic_pointer_cast<TextImage>(*j)->id() != id)) {
-				++j;
-			}
-
-			if (j != _texts.end()) {
-				dynamic_pointer_cast<TextImage>(*j)->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+			for (auto text: _texts) {
+				auto image = dynamic_pointer_cast<TextImage>(text);
+				if (image && image->id() == id) {
+					image->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+				}
 			}
 			break;
 		}
-- 
2.43.0


From a269b00789ec663d529713d6d93d209c5481f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:40 +0000
Subject: [PATCH 45/61] fix: keep the data of fonts when giving them an ID

Replacing an empty font ID did not change the ID under which the data of the
font is kept, so the font was left out when the asset was written.
---
 src/text_asset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 990f64d..448cadd 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -935,6 +935,12 @@ TextAsset::fix_empty_font_ids()
 		}
 	}
 
+	for (auto& i: _fonts) {
+		if (i.load_id == "") {
+			i.load_id = empty_id;
+		}
+	}
+
 	for (auto i: _texts) {
 		auto j = dynamic_pointer_cast<TextString>(i);
 		if (j && j->font() && j->font().get() == "") {
-- 
2.43.0


From 838f38e854ccfe76bcfd4d1e457a2ae05fbd2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:08 +0000
Subject: [PATCH 46/61] fix: limit fade times that are given as a number of
 units

A FadeUpTime or FadeDownTime without colons was put into the editable units of
a time whatever its size, so it was not limited to 8 seconds and did not
compare equal to the same time in seconds.
---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 448cadd..86cebf5 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -277,7 +277,9 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 	} else if (u.find (":") != string::npos) {
 		t = Time (u, tcr);
 	} else {
-		t = Time (0, 0, 0, lexical_cast<int> (u), tcr.get_value_or(250));
+		auto const rate = tcr.get_value_or(250);
+		auto const units = lexical_cast<int>(u);
+		t = Time(0, 0, units / rate, units % rate, rate);
 	}
 
 	if (t > Time (0, 0, 8, 0, 250)) {
-- 
2.43.0


From 97d2cc6a3e02a36a3a908811c2976ab816969d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:41 +0000
Subject: [PATCH 47/61] fix: forget texts that have ended when counting the
 lines on screen

The list of the texts at each height was copied before the one that had
ended was removed from it, so lines that are made of more than one text
stayed in the count for ever.
---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..005229f 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1248,7 +1248,7 @@ dcp::verify_text_lines_and_characters(
 			 */
 			if (iter != current.end()) {
 				DCP_ASSERT (current.find(i->start->position) != current.end());
-				auto current_position = current[i->start->position];
+				auto& current_position = current[i->start->position];
 				auto iter = std::find(current_position.begin(), current_position.end(), i->start);
 				if (iter != current_position.end()) {
 					current_position.erase(iter);
-- 
2.43.0


From bf97d5aec0ece573de0bf8395165b09662f63cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:41 +0000
Subject: [PATCH 48/61] fix: don't look for the ID of a closed caption that a
 reel does not have

Verifying a composition whose first reel has more closed captions than a
later one read past the end of that reel's list.
---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 005229f..67709fd 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1300,7 +1300,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 	for (auto i = 0U; i < reels[0]->closed_captions().size(); ++i) {
 		verify_text_details(context, reels, reels[0]->closed_captions()[i]->edit_rate().numerator,
 			[i](shared_ptr<Reel> reel) {
-				return reel->closed_captions()[i]->id();
+				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
 				return i < reel->closed_captions().size();
-- 
2.43.0


From 3e00077cdfd5b555d265e6dc1b6d4f7acdb2f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:41 +0000
Subject: [PATCH 49/61] fix: verify packages that refer to subtitles or
 captions in other packages

Verification stopped with an exception if a closed caption, or a subtitle
in any reel but the first, was not in the package being verified.
---
 src/verify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 67709fd..5595744 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1129,6 +1129,9 @@ verify_closed_caption_details(Context& context, vector<shared_ptr<Reel>> reels)
 		context.reel_index = reel_index;
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 		for (auto ccap: reel->closed_captions()) {
+			if (!ccap->asset_ref().resolved()) {
+				continue;
+			}
 			auto reel_xml = ccap->asset()->raw_xml();
 			if (!reel_xml) {
 				context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
@@ -1283,7 +1286,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return reel->main_subtitle() ? reel->main_subtitle()->id() : string{};
 			},
 			[](shared_ptr<Reel> reel) {
-				return static_cast<bool>(reel->main_subtitle());
+				return reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved();
 			},
 			[](shared_ptr<Reel> reel) {
 				return reel->main_subtitle()->asset()->raw_xml();
@@ -1303,7 +1306,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
-				return i < reel->closed_captions().size();
+				return i < reel->closed_captions().size() && reel->closed_captions()[i]->asset_ref().resolved();
 			},
 			[i](shared_ptr<Reel> reel) {
 				return reel->closed_captions()[i]->asset()->raw_xml();
@@ -1770,7 +1773,7 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 			context.reel_index = reel_index;
 			dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 			for (auto i: reel->closed_captions()) {
-				if (i->asset()) {
+				if (i->asset_ref().resolved()) {
 					verify_text_lines_and_characters(i->asset(), 32, 32, &result);
 				}
 			}
-- 
2.43.0


From 354bca5ec6d861658f3b5165b2329fe006f65182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:50:47 +0000
Subject: [PATCH 50/61] fix: notice any subtitle that lasts longer than its
 reel, not just the last

Only the end of the last subtitle in each reel was compared with the end
of the reel, so a longer one that began earlier was not reported.
---
 src/verify.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 5595744..6357de1 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -888,6 +888,8 @@ verify_text_details (
 {
 	/* end of last subtitle (in editable units) */
 	optional<int64_t> last_out;
+	/* latest end of any subtitle in the current reel (in editable units) */
+	optional<int64_t> latest_out;
 	/* current reel start time (in editable units) */
 	int64_t reel_offset = 0;
 
@@ -902,7 +904,7 @@ verify_text_details (
 
 	std::function<void (Errors&, cxml::ConstNodePtr, optional<int>, optional<Time>, int, bool, bool&, vector<string>&)> parse;
 
-	parse = [&parse, &last_out, &reel_offset](
+	parse = [&parse, &last_out, &latest_out, &reel_offset](
 		Errors& errors,
 		cxml::ConstNodePtr node,
 		optional<int> tcr,
@@ -938,6 +940,7 @@ verify_text_details (
 				}
 			}
 			last_out = reel_offset + out.as_editable_units_floor(er);
+			latest_out = std::max(latest_out.get_value_or(*last_out), *last_out);
 		} else if (node->name() == "Text") {
 			std::function<bool (cxml::ConstNodePtr)> node_has_content = [&](cxml::ConstNodePtr node) {
 				if (!node->content().empty()) {
@@ -976,6 +979,7 @@ verify_text_details (
 
 		bool reel_overlap = false;
 		Errors errors;
+		latest_out = boost::none;
 
 		context.reel_index = i;
 		context.asset_id = asset_id(reels[i]);
@@ -1016,7 +1020,7 @@ verify_text_details (
 		vector<string> font_ids;
 		parse(errors, doc, tcr, start_time, edit_rate, i == 0, has_text, font_ids);
 		auto end = reel_offset + duration(reels[i]);
-		if (last_out && *last_out > end) {
+		if (latest_out && *latest_out > end) {
 			reel_overlap = true;
 		}
 		reel_offset = end;
@@ -1025,7 +1029,7 @@ verify_text_details (
 			context.add_note(dcp::VerificationNote(VerificationNote::Code::MISSING_LOAD_FONT).set_asset_id(id(reels[i])));
 		}
 
-		if (last_out && *last_out > reel_offset) {
+		if (latest_out && *latest_out > reel_offset) {
 			reel_overlap = true;
 		}
 
-- 
2.43.0


From e7d696e34643bd18c6a864959d81251209855482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:30 +0000
Subject: [PATCH 51/61] fix: expect a PKL's annotation to be a CPL's title only
 if it has one CPL

Each second CPL in a PKL put aside the title that was expected, and each
third brought it back.  The title was also that of the CPL being verified
rather than of the one in the PKL.
---
 src/verify.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 6357de1..136e2f3 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1623,13 +1623,15 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 
 		/* Check that any PKL with a single CPL has its AnnotationText the same as the CPL's ContentTitleText */
 		optional<string> required_annotation_text;
+		int cpls_in_pkl = 0;
 		for (auto j: i->assets()) {
 			/* See if this is a CPL */
 			for (auto k: context.dcp->cpls()) {
 				if (j->id() == k->id()) {
-					if (!required_annotation_text) {
+					++cpls_in_pkl;
+					if (cpls_in_pkl == 1) {
 						/* First CPL we have found; this is the required AnnotationText unless we find another */
-						required_annotation_text = cpl->content_title_text();
+						required_annotation_text = k->content_title_text();
 					} else {
 						/* There's more than one CPL so we don't care what the PKL's AnnotationText is */
 						required_annotation_text = boost::none;
-- 
2.43.0


From 7a3c48e1df442e5cf858bd816b439bea18ce9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:03 +0000
Subject: [PATCH 52/61] fix: count reels without subtitles when measuring the
 gaps between subtitles

---
 src/verify.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 136e2f3..28a627d 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -986,12 +986,14 @@ verify_text_details (
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; context.asset_id = boost::none; };
 
 		if (!check(reels[i])) {
+			reel_offset += reels[i]->duration();
 			continue;
 		}
 
 		auto reel_xml = xml(reels[i]);
 		if (!reel_xml) {
 			context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
+			reel_offset += duration(reels[i]);
 			continue;
 		}
 
-- 
2.43.0


From 3201868e62ed29b9bf01129fc36ef5ace4b8fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:03 +0000
Subject: [PATCH 53/61] fix: verify subtitles and captions that are not in the
 first reel

---
 src/verify.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 28a627d..f9fc1f4 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1286,8 +1286,13 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 		return;
 	}
 
-	if (reels[0]->main_subtitle() && reels[0]->main_subtitle()->asset_ref().resolved()) {
-		verify_text_details(context, reels, reels[0]->main_subtitle()->edit_rate().numerator,
+	/* The first reel might not have a subtitle, or as many closed captions as others */
+	auto const with_subtitle = std::find_if(reels.begin(), reels.end(), [](shared_ptr<Reel> reel) {
+		return reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved();
+	});
+
+	if (with_subtitle != reels.end()) {
+		verify_text_details(context, reels, (*with_subtitle)->main_subtitle()->edit_rate().numerator,
 			[](shared_ptr<Reel> reel) {
 				return reel->main_subtitle() ? reel->main_subtitle()->id() : string{};
 			},
@@ -1306,8 +1311,12 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 		);
 	}
 
-	for (auto i = 0U; i < reels[0]->closed_captions().size(); ++i) {
-		verify_text_details(context, reels, reels[0]->closed_captions()[i]->edit_rate().numerator,
+	auto const most_captions = *std::max_element(reels.begin(), reels.end(), [](shared_ptr<Reel> a, shared_ptr<Reel> b) {
+		return a->closed_captions().size() < b->closed_captions().size();
+	});
+
+	for (auto i = 0U; i < most_captions->closed_captions().size(); ++i) {
+		verify_text_details(context, reels, most_captions->closed_captions()[i]->edit_rate().numerator,
 			[i](shared_ptr<Reel> reel) {
 				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
-- 
2.43.0


From 6c8302bbead46ba7215519952b8ae1076acacd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:03 +0000
Subject: [PATCH 54/61] fix: don't count a text that ends when another starts
 as being with it

---
 src/verify.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index f9fc1f4..c43e271 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1227,7 +1227,11 @@ dcp::verify_text_lines_and_characters(
 	}
 
 	std::sort(events.begin(), events.end(), [](shared_ptr<Event> const& a, shared_ptr<Event> const& b) {
-		return a->time < b->time;
+		if (a->time != b->time) {
+			return a->time < b->time;
+		}
+		/* A text which ends just as another starts is not on screen at the same time */
+		return a->start && !b->start;
 	});
 
 	/* The number of characters currently displayed at different vertical positions, i.e. on
-- 
2.43.0


From ddbff578efa8eb65ff1e810ae3462e20822a1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:36:22 +0000
Subject: [PATCH 55/61] fix: write Interop subtitles once when combining DCPs
 which share them

---
 src/combine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/combine.cc b/src/combine.cc
index e84b59a..f84f0ba 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -149,6 +149,11 @@ dcp::combine(
 			}
 
 			if (auto sub = dynamic_pointer_cast<dcp::InteropTextAsset>(j)) {
+				if (already_written.find(sub->id()) != already_written.end()) {
+					/* Some other input has this too */
+					continue;
+				}
+
 				/* Interop font files are assets (in the ASSETMAP) and also linked from
 				 * the subtitle XML by filename.  We have to fix both these things, and
 				 * re-write the subtitle XML file since the font URI might have changed
-- 
2.43.0


From 35fb9dc762f8d67fb9d7eac47fb937a6db4ba6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:36:22 +0000
Subject: [PATCH 56/61] fix: put a CPL once in the output when combining DCPs
 which share it

---
 src/combine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combine.cc b/src/combine.cc
index f84f0ba..952b245 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -50,6 +50,7 @@
 #include <fmt/format.h>
 #include <boost/filesystem.hpp>
 #include <boost/system/windows_error.hpp>
+#include <algorithm>
 #include <set>
 #include <string>
 #include <vector>
@@ -140,7 +141,10 @@ dcp::combine(
 		dcp.read();
 
 		for (auto j: dcp.cpls()) {
-			output_dcp.add(j);
+			auto const so_far = output_dcp.cpls();
+			if (std::none_of(so_far.begin(), so_far.end(), [j](shared_ptr<const CPL> cpl) { return cpl->id() == j->id(); })) {
+				output_dcp.add(j);
+			}
 		}
 
 		for (auto j: dcp.assets(true)) {
-- 
2.43.0


From 07e1e4c4e11eb0c8fd10b65e94c56a70e619bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:34 +0000
Subject: [PATCH 57/61] fix: notice JPEG2000 codestreams which end inside a
 marker segment

---
 src/verify_j2k.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index f7f9117..7c65d1c 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -159,6 +159,13 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 			}
 		};
 
+		auto skip = [&](int n) {
+			if (n < 0 || n > (end - ptr)) {
+				throw InvalidCodestream("unexpected end of file");
+			}
+			ptr += n;
+		};
+
 		require_marker ("SOC");
 		require_marker ("SIZ");
 		auto L_siz = get_16();
@@ -279,7 +286,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				if (!fourk && guard_bits != 1) {
 					notes.push_back(VerificationNote(VerificationNote::Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(guard_bits));
 				}
-				ptr += L_qcd - 3;
+				skip(L_qcd - 3);
 			} else if (*marker_name == "COC") {
 				get_16(); // length
 				auto const coc_component_number = get_8();
@@ -303,11 +310,11 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				require_8(0x88, "invalid precinct size %1");
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 				tlm = true;
 			} else if (*marker_name == "QCC" || *marker_name == "COM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 			} else if (*marker_name == "POC") {
 				if (main_header_finished) {
 					num_POC_after_main++;
-- 
2.43.0


From 09481e8128e8b9fc3ee135feee22968273e7bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:34 +0000
Subject: [PATCH 58/61] fix: say the right size of JPEG2000 code blocks

---
 src/verify_j2k.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 7c65d1c..4669e68 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -255,13 +255,13 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				auto log_code_block_width = get_8();
 				if (log_code_block_width != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (2 << log_code_block_width))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (1 << log_code_block_width))
 					);
 				}
 				auto log_code_block_height = get_8();
 				if (log_code_block_height != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (2 << log_code_block_height))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (1 << log_code_block_height))
 					);
 				}
 				require_8(0, "invalid mode variations");
-- 
2.43.0


From 2a744acfaacffa92cf5a7f5c5fc43a7803a1eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:34 +0000
Subject: [PATCH 59/61] fix: count frames from the start of the CPL when
 reporting tile parts which are too big

---
 src/verify_j2k.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 4669e68..43a17c7 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -231,7 +231,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (tile_part_length > max_tile_part_size) {
 					VerificationNote note{VerificationNote::Code::INVALID_JPEG2000_TILE_PART_SIZE};
-					note.set_frame(frame_index);
+					note.set_frame(start_index + frame_index);
 					note.set_frame_rate(dcp::Fraction(frame_rate, 1));
 					note.set_component(tile_part_index);
 					note.set_size_in_bytes(tile_part_length);
-- 
2.43.0


From 2ec91c6fbe5c44776f9240bdd31f44eb04baca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:34 +0000
Subject: [PATCH 60/61] fix: expect the transform type, and 4K's extra level,
 in JPEG2000 COC markers

---
 src/verify_j2k.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 43a17c7..b78045a 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -298,16 +298,20 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 					throw InvalidCodestream(String::compose("invalid COC component number %1", coc_component_number));
 				}
 				require_8(1, "invalid coding style %1");
-				require_8(5, "invalid number of transform levels %1");
+				require_8(fourk ? 6 : 5, "invalid number of transform levels %1");
 				require_8(3, "invalid code block width exponent %1");
 				require_8(3, "invalid code block height exponent %1");
 				require_8(0, "invalid mode variations");
+				require_8(0, "invalid wavelet transform type %1"); // 9/7 irreversible
 				require_8(0x77, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
+				if (fourk) {
+					require_8(0x88, "invalid precinct size %1");
+				}
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
 				skip(len - 2);
-- 
2.43.0


From 79e09af4930d5396bd85845b6f5209433b3d4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:27:31 +0000
Subject: [PATCH 61/61] fix: refuse language tags which have the same variant
 or extension twice

---
 src/language_tag.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/language_tag.cc b/src/language_tag.cc
index 227620b..6d53ae3 100644
--- a/src/language_tag.cc
+++ b/src/language_tag.cc
@@ -124,7 +124,7 @@ LanguageTag::LanguageTag (string tag)
 
 	try {
 		while (true) {
-			_variants.push_back (VariantSubtag(parts[p]));
+			add_variant(VariantSubtag(parts[p]));
 			++p;
 			if (p == parts.size()) {
 				return;
@@ -134,7 +134,7 @@ LanguageTag::LanguageTag (string tag)
 
 	try {
 		while (true) {
-			_extlangs.push_back (ExtlangSubtag(parts[p]));
+			add_extlang(ExtlangSubtag(parts[p]));
 			++p;
 			if (p == parts.size()) {
 				return;
-- 
2.43.0

