From 555ae5348abdf4de1cb204a7d72c38ce47dbd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 001/143] fix: upper bound of symmetrical confidence intervals

vertical_segment::get computed the upper bound of a sample with a
symmetrical confidence interval as y - dt, i.e. equal to the lower bound.
---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From a9fa37c0cf34f66e3db74854714e9edb5c9950d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 002/143] fix: report a text data file without dimensions as an
 I/O error

A bare 'throw;' outside of a handler terminates the process instead of
reporting the error to the caller.
---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..5bbfc2b 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -164,7 +164,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    throw std::ios_base::failure("undefined dimensions");
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
-- 
2.43.0


From e9cba0bd7613a861105e36eef91ac9708638b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 003/143] fix: blank lines of text data files are not samples

Lines made of white space only (for instance the empty lines of a file with
CRLF line ends) were loaded as samples with undefined values.
---
 sources/core/data_storage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 5bbfc2b..9b14ebb 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -197,8 +197,9 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::getline(input, line) ;
     std::stringstream linestream(line) ;
 
-    // Discard comments and empty lines.
-    if(line.empty() || linestream.peek() == '#')
+    // Discard comments and blank lines.
+    if(line.find_first_not_of(" \t\r\v\f") == std::string::npos
+       || linestream.peek() == '#')
     {
       continue ;
     }
-- 
2.43.0


From ab8094298f8cc91c393db4e1b780f7b26638d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 004/143] fix: refuse incomplete rows of text data files

Rows with missing or malformed numbers were loaded with undefined values.
---
 sources/core/data_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 9b14ebb..537d34e 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -225,6 +225,9 @@ alta::data* alta::load_data_from_text(std::istream& input,
       read_confidence_interval(linestream, v, kind,
                                dim.first, dim.second, args);
 
+      if (linestream.fail())
+          throw std::ios_base::failure("incomplete or malformed data row");
+
       // Check if we need to filter out what we just read according to ARGS.
       // TODO: Move filtering to a post-parsing operation on 'data'.
       if (!(within_bounds(v.segment(0, dim.first), min, max)
-- 
2.43.0


From ee8687b2d400bbc0d8c3e1a8fb26691119f4ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 005/143] fix: lower bound of --dt-max segments

The lower bound used the smaller of the relative and absolute sizes instead
of the larger.
---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 537d34e..c793a3f 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,7 +129,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From 86fb20298d6c566b72c45b31e3e509abfbfd925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 006/143] fix: data bounds are not rounded to single precision

A scalar bound such as '--min 0.1' was rounded to a float and excluded samples
at 0.1, and without any bound samples beyond FLT_MAX were dropped.
---
 sources/core/args.h           | 8 ++++++--
 sources/core/data_storage.cpp | 8 ++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..6d778b2 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -231,7 +231,7 @@ class arguments
 		//!
 		//! The \a default_value argument will be returned if the \a key
 		//! has no associated value.
-		vec get_vec(const std::string& key, int size, float default_value = 0.0f) const
+		vec get_vec(const std::string& key, int size, double default_value = 0.0) const
 		{
 			vec res(size);
 			for(int i=0; i<size; ++i)
@@ -266,7 +266,11 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
+			double val = default_value;
+			if(_map.count(key) > 0)
+			{
+				val = atof(_map.find(key)->second.c_str());
+			}
 			for(int i=0; i<size; ++i)
 			{
 				res[i] = val;
diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index c793a3f..0e8db29 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -173,14 +173,14 @@ alta::data* alta::load_data_from_text(std::istream& input,
   std::pair<int, int> dim = header.get_pair<int>("DIM");
   size_t row_count = dim.first + 3 * dim.second;
 
-  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
+  min = args.get_vec("min", dim.first, -std::numeric_limits<double>::max()) ;
+  max = args.get_vec("max", dim.first,  std::numeric_limits<double>::max()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
 #endif
 
-  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
-  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
+  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<double>::max()) ;
+  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<double>::max()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
-- 
2.43.0


From e50443279553b4e07260d01e5c864b8afdda1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 007/143] fix: the header of a binary data file ends at
 BEGIN_STREAM

A payload whose first byte is '#' was parsed as a header line.
---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 6d778b2..031cfa8 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -486,6 +486,12 @@ class arguments
 						linestream >> key;
 						if (!key.empty()) {
 
+							// The binary payload starts right after this line.
+							if (key == "BEGIN_STREAM") {
+								args.update(key, data);
+								break;
+							}
+
 							// ALTA header starts and ends with '#ALTA'
 							if (key == "ALTA") {
 								std::string first, second;
-- 
2.43.0


From 34a84ff752775a73b1801915e9ff8629522ae32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 008/143] fix: report unsupported binary data headers instead
 of asserting

A truncated or foreign binary header aborted the process (or, without
assertions, was loaded as if it were valid).
---
 sources/core/data_storage.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 0e8db29..beb8025 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -357,17 +357,24 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     using namespace alta;
 
     // FIXME: For now we make a number of assumptions.
-    assert(header["FORMAT"] == "binary");
-    assert(header.get_int("VERSION") == 0);
-    assert(header["PRECISION"] == "ieee754-double");
 #if __BYTE_ORDER == __LITTLE_ENDIAN
-    assert(header["ENDIAN"] == "little");
+    const std::string endianness = "little";
 #else
-    assert(header["ENDIAN"] == "big");
+    const std::string endianness = "big";
 #endif
+    if(header["FORMAT"] != "binary"
+       || header.get_int("VERSION") != 0
+       || header["PRECISION"] != "ieee754-double"
+       || header["ENDIAN"] != endianness)
+    {
+        throw std::ios_base::failure("unsupported or incomplete binary header");
+    }
 
     std::pair<int, int> dim = header.get_pair<int>("DIM");
-    assert(dim.first > 0 && dim.second > 0);
+    if(dim.first <= 0 || dim.second <= 0)
+    {
+        throw std::ios_base::failure("invalid dimensions in binary header");
+    }
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
-- 
2.43.0


From 0ece0fb8ec91c02ced177d7faa6c7b2354063445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 009/143] fix: a binary data file cut right after its header is
 truncated

---
 sources/core/data_storage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index beb8025..2277669 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -396,8 +396,10 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
       size_t byte_count = element_count * sizeof *content;
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
+      // Reading from a stream that has already reached its end fails too, so
+      // that a file cut right after its header is not taken as a whole file.
       for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
+           total < byte_count;
            total += in.gcount())
       {
           in.read((char *) content + total, byte_count - total);
-- 
2.43.0


From 67d326bc42c4377729e623c9871c79160701de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 010/143] fix: default tolerance of data::equals is round-off,
 not 1.0

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From 34f8d6c740dff10fb43baef2c6917f48cabdde23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 011/143] fix: data::equals must not take NaN for any value

---
 sources/core/data.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..a986278 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -50,7 +50,8 @@ bool data::equals(const data& data, double epsilon)
         for (int j = 0; j < self.size(); j++)
         {
             double diff = std::abs(self[j] - other[j]);
-            if (diff > epsilon)
+            // Written so that NaN is not within epsilon of anything.
+            if (!(diff <= epsilon))
                 return false;
         }
     }
-- 
2.43.0


From 35a4bdb9cb5506e273d34e40de6a20ca178c24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 012/143] fix: pair and list readers never return uninitialised
 values

---
 sources/core/args.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 031cfa8..819b1ab 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -303,7 +303,7 @@ class arguments
 						stream.get(s, 256, ',');
 						stream.ignore(1);
 						std::stringstream sstream(s);
-						T v;
+						T v = T();
 						sstream >> v;
 
 						// Push the value at the end of the vector
@@ -365,7 +365,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
-- 
2.43.0


From bfd21ca801e4e5de5e68f2626a7a8422691a9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 013/143] fix: a header ends at '#ALTA HEADER END' too, as
 documented

---
 sources/core/args.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 819b1ab..d4ed0b5 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -496,6 +496,9 @@ class arguments
 							if (key == "ALTA") {
 								std::string first, second;
 								linestream >> first >> second;
+								if (first == "HEADER" && second == "END") {
+									break;
+								}
 								if (second == "HEADER")	{
 
 									// Add the header type
-- 
2.43.0


From 895e3b86fdeb528d5043cb0e516d805c78a47ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 014/143] fix: the type of a header is the word before HEADER

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index d4ed0b5..91ce977 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -503,7 +503,7 @@ class arguments
 
 									// Add the header type
 									if (first != "END") {
-										args.update("TYPE", second);
+										args.update("TYPE", first);
 									} else {
 										break;
 									}
-- 
2.43.0


From 6b1b8959694068f9d76491f0b22e67667a14dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 015/143] fix: inverse of the stereographic projection scales
 the projected point

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..2a14146 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -375,16 +375,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From 425c586d0a810b54723cb17ec37a5dbc59e99848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 016/143] fix: COS_TK and SCHLICK_VK yield unit vectors with
 the given back vector

---
 sources/core/params.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2a14146..f0d2501 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,10 +104,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] = sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
@@ -206,13 +206,12 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
+            outvec[0] = -invec[0];
+            outvec[1] = -invec[1];
             outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
+            outvec[3] = invec[0];
+            outvec[4] = invec[1];
             outvec[5] = invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
-- 
2.43.0


From 62976e459a2bc2eac2f10553021b3fece2827397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 017/143] fix: register SCHLICK_VK and RUSIN_TH_PH_TD under
 their own names

---
 sources/core/params.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index f0d2501..35c9610 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -42,10 +42,11 @@ std::map<params::input, const param_info> create_map()
 	_map.insert(std::make_pair<params::input, const param_info>(params::NEUMANN_2D, param_info("NEUMANN_2D", 2, "Neumann parametrization H, B but without third component.")));
 
 	/* 3D Params */
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the azimuth of the difference vector")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
-	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VH", 3, "Vector representation of the Back angle only")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VK", 3, "Vector representation of the Back angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TL_TV_PROJ_DPHI, param_info("ISOTROPIC_TL_TV_PROJ_DPHI", 3, "Isoptropic projected phi parametrization.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_TL_TK_PROJ_DPHI, param_info("SCHLICK_TL_TK_PROJ_DPHI", 3, "Isoptropic projected phi parametrization centered around the back vector.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RETRO_TL_TVL_PROJ_DPHI, param_info("RETRO_TL_TVL_PROJ_DPHI", 3, "Isoptropic retro projected phi parametrization.")));
-- 
2.43.0


From 3aa9efdd258141cd97d06e6e2f1d41ab8ece7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 018/143] fix: COS_TLR is the dot product of the light and the
 reflected view vector

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 35c9610..7450fa2 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -476,7 +476,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From bfd58c85cdf440116783740207d97845f6cec001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 019/143] fix: projected azimuth differences keep their sign
 when converted back

---
 sources/core/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 7450fa2..2795993 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -593,7 +593,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
@@ -638,8 +638,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double theta_k = (norm > 0.0) ? acos(clamp(vkz / norm, -1.0, 1.0)) : 0.0;
+			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From a03126e40beba1bfb57fc9736b2139a73fcd02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 020/143] fix: RETRO_TL_TVL_PROJ_DPHI conversions are inverse
 of each other

---
 sources/core/params.cpp | 67 +++++++++++++----------------------------
 1 file changed, 21 insertions(+), 46 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2795993..317076b 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -265,27 +265,14 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sin_vl   = sin(theta_vl);
 			const double cos_l    = cos(invec[0]);
 			const double sin_l    = sin(invec[0]);
-			const double cos_phi  = (theta_vl > 0.0) ? invec[1] / theta_vl : 0.0;
+			const double cos_phi  = (theta_vl > 0.0) ? invec[1] / theta_vl : 1.0;
 			const double sin_phi  = (theta_vl > 0.0) ? invec[2] / theta_vl : 0.0;
 
-			// Compute the cosine of the outgoing vector using the
-			// spherical law of cosines
-			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
-
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
-			outvec[2] = cos_v;
+			// The outgoing vector in the frame made of the light vector, the
+			// direction of the normal as seen from it, and the bi-normal.
+			outvec[0] = cos_vl*sin_l - cos_phi*cos_l*sin_vl;
+			outvec[1] = sin_vl*sin_phi;
+			outvec[2] = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = cos(invec[0]);
@@ -603,33 +590,21 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double cos_v  = invec[2];
 			const double cos_l  = invec[5];
-			const double cos_vl = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
-			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
-			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
-			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
-
-			// Sine of the \Delta_{\phi} angle
-			const double sin_dp = sin(atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]));
-
-			if(sin_vl != 0.0 && sin_l != 0.0)
-			{
-				// Cosine and sine of the phi_{L,V} angle: the spherical
-				// angle between the arclength {L,N} and {V,N}
-				const double cos_phi = (cos_v - cos_l*cos_vl) / (sin_l * sin_vl);
-				const double sin_phi = (sin_dp * sin_v) / sin_vl;
-
-				const double theta = acos(cos_vl);
-
-				outvec[0] = acos(cos_l);
-				outvec[1] = theta * cos_phi;
-				outvec[2] = theta * sin_phi;
-			}
-			else
-			{
-				outvec[0] = acos(cos_l);
-				outvec[1] = acos(cos_v) - acos(cos_l);
-				outvec[2] = 0.0;
-			}
+			const double cos_vl = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
+			const double sin_l  = sqrt(invec[3]*invec[3] + invec[4]*invec[4]);
+
+			// Projections of the view vector on the direction of the normal
+			// as seen from the light vector, and on the bi-normal: cosine and
+			// sine, times sin_vl, of the phi_{L,V} angle between the arclength
+			// {L,N} and {L,V}.
+			const double cos_phi = (sin_l > 0.0) ? sin_l*cos_v - cos_l*(invec[0]*invec[3] + invec[1]*invec[4]) / sin_l : -invec[0];
+			const double sin_phi = (sin_l > 0.0) ? (invec[1]*invec[3] - invec[0]*invec[4]) / sin_l : invec[1];
+			const double sin_vl  = sqrt(cos_phi*cos_phi + sin_phi*sin_phi);
+			const double theta   = atan2(sin_vl, cos_vl);
+
+			outvec[0] = acos(cos_l);
+			outvec[1] = (sin_vl > 0.0) ? theta * cos_phi / sin_vl : theta;
+			outvec[2] = (sin_vl > 0.0) ? theta * sin_phi / sin_vl : 0.0;
 		}
 			break;
 		case SCHLICK_TL_TK_PROJ_DPHI:
-- 
2.43.0


From d14c0d2ce139492bb27bf235da5b3a2df9627ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 021/143] fix: STARK_3D and NEUMANN_3D do not swap the light
 and view vectors

---
 sources/core/params.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 317076b..cdb6df2 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -292,7 +292,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -318,10 +318,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			// V = H - B and L = H + B
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From a9d251d9e3958d344d2493b5d6ff36f151b99c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 022/143] fix: round-off at the ends of the angular ranges
 yields neither NaN nor abort

---
 sources/core/params.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index cdb6df2..370fec3 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -408,8 +408,8 @@ static void half_vector(Real const *invec, Vector &half)
         half /= sqrt(sqnorm);
     }
 
-    assert(half[2] <= 1.);
-    assert(half[2] >= 0.);
+    // Round-off may push it slightly out of range, notably at grazing angles.
+    half[2] = clamp<Real>(half[2], -1., 1.);
 }
 
 // Return true if X is essentially zero.  We have to resort to this hack
@@ -457,20 +457,21 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double Kx = invec[0]-invec[3];
 			const double Ky = invec[1]-invec[4];
 			const double Kz = invec[2]+invec[5];
-			outvec[0] = (invec[2] + invec[5]) / sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			const double norm = sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			outvec[0] = (norm > 0.0) ? clamp(Kz / norm, -1.0, 1.0) : 1.0;
 		}
 			break;
 		case params::COS_TLV:
-			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
+			outvec[0] = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
+			outvec[0] = clamp(invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]), -1.0, 1.0);
 			break;
 
 			// 2D Parametrizations
 		case params::COS_TH_TD:
 			outvec[0] = half[2];
-			outvec[1] = half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2];
+			outvec[1] = clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0);
 			break;
 		case params::RUSIN_TH_TD:
 			outvec[0] = acos(half[2]);
@@ -478,7 +479,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case ISOTROPIC_TV_PROJ_DPHI:
 		{
-			const double theta = acos(invec[2]);
+			const double theta = acos(clamp(invec[2], -1.0, 1.0));
 			const double dphi  = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta * cos(dphi);
 			outvec[1] = theta * sin(dphi);
@@ -516,7 +517,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		case params::RUSIN_TH_PH_TD:
 			outvec[0] = acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
-			outvec[2] = acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
+			outvec[2] = acos(clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0));
 			break;
 		case params::RUSIN_TH_TD_PD:
 			outvec[0] = acos(half[2]);
@@ -537,7 +538,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(diff[2]);
+      outvec[1] = acos(clamp(diff[2], -1.0, 1.0));
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -547,8 +548,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			break;
 		case params::ISOTROPIC_TV_TL_DPHI:
-			outvec[0] = acos(invec[2]);
-			outvec[1] = acos(invec[5]);
+			outvec[0] = acos(clamp(invec[2], -1.0, 1.0));
+			outvec[1] = acos(clamp(invec[5], -1.0, 1.0));
 			outvec[2] = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
 			break;
 		case params::RUSIN_VH:
@@ -579,8 +580,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-			const double theta_l = acos(invec[5]);
-			const double theta_v = acos(invec[2]);
+			const double theta_l = acos(clamp(invec[5], -1.0, 1.0));
+			const double theta_v = acos(clamp(invec[2], -1.0, 1.0));
 			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
@@ -603,7 +604,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double sin_vl  = sqrt(cos_phi*cos_phi + sin_phi*sin_phi);
 			const double theta   = atan2(sin_vl, cos_vl);
 
-			outvec[0] = acos(cos_l);
+			outvec[0] = acos(clamp(cos_l, -1.0, 1.0));
 			outvec[1] = (sin_vl > 0.0) ? theta * cos_phi / sin_vl : theta;
 			outvec[2] = (sin_vl > 0.0) ? theta * sin_phi / sin_vl : 0.0;
 		}
@@ -616,7 +617,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = (norm > 0.0) ? acos(clamp(vkz / norm, -1.0, 1.0)) : 0.0;
 			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
-			outvec[0] = acos(invec[5]);
+			outvec[0] = acos(clamp(invec[5], -1.0, 1.0));
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
 		}
@@ -669,15 +670,15 @@ void params::from_cartesian(const double* invec, params::input outtype,
       }
       else
       {
-          outvec[2] = acos(diff[2]);
+          outvec[2] = acos(clamp(diff[2], -1.0, 1.0));
           outvec[3] = atan2(diff[1], diff[0]);
       }
 			break;
 
 		case params::SPHERICAL_TL_PL_TV_PV:
-			outvec[0] = acos(invec[5]);
+			outvec[0] = acos(clamp(invec[5], -1.0, 1.0));
 			outvec[1] = atan2(invec[4], invec[3]);
-			outvec[2] = acos(invec[2]);
+			outvec[2] = acos(clamp(invec[2], -1.0, 1.0));
 			outvec[3] = atan2(invec[1], invec[0]);
 #ifdef DEBUG
 			std::cout << invec[2] << " - acos -> " << outvec[0] << std::endl;
-- 
2.43.0


From 7b7142b429d5c3c3b7206dfe6e14b8d9197d4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 023/143] fix: STARK and NEUMANN conversions at grazing angles

---
 sources/core/params.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 370fec3..73d9fab 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -91,6 +91,13 @@ static std::map<params::output, std::string> create_output_map()
 static const std::map<params::output, std::string> output_map =
 		create_output_map();
 
+// Return sqrt(1 - X), where round-off may have pushed X slightly above 1.  It
+// is NaN, which makes the configuration an invalid one, for larger values.
+static double sqrt_one_minus(double x)
+{
+	return sqrt((x > 1.0 && x < 1.0 + 1e-12) ? 0.0 : 1.0 - x);
+}
+
 void params::to_cartesian(const double* invec, params::input intype,
 		double* outvec)
 {
@@ -163,7 +170,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double Hx = invec[0];
 			const double Hy = 0;
          const double sum = Hx*Hx + invec[1]*invec[1];
-			const double Hz = (sum <= 1.0) ? sqrt(1.0 - std::min(sum, 1.0)) : -1.0;
+			const double Hz = (sum < 1.0 + 1e-12) ? sqrt_one_minus(sum) : -1.0;
 
 			// Ensuring that <H,B> = 0.
 			const double Bx = 0.0;
@@ -183,10 +190,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 		{
 			outvec[0] =   invec[0];
 			outvec[1] =   invec[1];
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
+			outvec[2] =   sqrt_one_minus(outvec[0]*outvec[0] + outvec[1]*outvec[1]);
 			outvec[3] =   invec[0];
 			outvec[4] = - invec[1];
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[5] =   sqrt_one_minus(outvec[3]*outvec[3] + outvec[4]*outvec[4]);
 		}
 		break;
 
@@ -283,7 +290,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Constructing the Half vector
 			const double Hx = invec[0];
 			const double Hy = 0;
-			const double Hz = sqrt(1.0 - invec[0]*invec[0] - invec[1]*invec[1]);
+			const double Hz = sqrt_one_minus(invec[0]*invec[0] + invec[1]*invec[1]);
 
 			// Constructing the Back vector using azimuth and elevation angles
 			const double cosPhi = cos(invec[2]);
@@ -292,7 +299,9 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
+			// When both vectors are tangential, so are H and B.
+			const double Theta  = (Hz < 1e-7 && close_to(invec[0]*cosPhi, 0.0, 1e-7)) ?
+				0.5*M_PI : atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -326,8 +335,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > 1.0 ||
-				outvec[3]*outvec[3]+outvec[4]*outvec[4] > 1.0) {
+			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > 1.0 + 1e-12 ||
+				outvec[3]*outvec[3]+outvec[4]*outvec[4] > 1.0 + 1e-12) {
 				outvec[0] =  0.0;
 				outvec[1] =  0.0;
 				outvec[2] = -1.0;
@@ -338,8 +347,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 			}
 
 			// Project the vectorx on the hemisphere.
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[2] =   sqrt_one_minus(outvec[0]*outvec[0] + outvec[1]*outvec[1]);
+			outvec[5] =   sqrt_one_minus(outvec[3]*outvec[3] + outvec[4]*outvec[4]);
 		}
 			break;
 
-- 
2.43.0


From fb4cf2ad40373b90dad245381651de7e7c187834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 024/143] fix: half vector of opposite tangential directions is
 the normal

---
 sources/core/params.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 73d9fab..1bc37e2 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -408,7 +408,8 @@ static void half_vector(Real const *invec, Vector &half)
     half[2] = invec[2] + invec[5];
     Real sqnorm = half[0]*half[0] + half[1]*half[1] + half[2]*half[2];
 
-    if (sqnorm <= 0.) {
+    // The directions are opposite.
+    if (sqnorm <= 1e-20) {
         half[0] = 0;
         half[1] = 0;
         half[2] = 1;
-- 
2.43.0


From dee265b9b83820e2919fceef2f9b53c200a909cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 025/143] fix: averaging output values starts from zero

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..f48ed3e 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From 4614e6f0c10d10479a76cf74dcf92e3c46a9609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 026/143] fix: INV_STERADIAN_COSINE_FACTOR has a dimension

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index f48ed3e..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -299,6 +299,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From 1df7e55532135950b1c09a8bc4bb9e30a6421f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 027/143] fix: back vector of equal tangential directions is
 the normal

---
 sources/core/params.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 1bc37e2..115d209 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -468,7 +468,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double Ky = invec[1]-invec[4];
 			const double Kz = invec[2]+invec[5];
 			const double norm = sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
-			outvec[0] = (norm > 0.0) ? clamp(Kz / norm, -1.0, 1.0) : 1.0;
+			outvec[0] = (norm > 1.0E-10) ? clamp(Kz / norm, -1.0, 1.0) : 1.0;
 		}
 			break;
 		case params::COS_TLV:
@@ -625,7 +625,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = (norm > 0.0) ? acos(clamp(vkz / norm, -1.0, 1.0)) : 0.0;
+			const double theta_k = (norm > 1.0E-10) ? acos(clamp(vkz / norm, -1.0, 1.0)) : 0.0;
 			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(clamp(invec[5], -1.0, 1.0));
 			outvec[1] = theta_k * cos(dphi);
-- 
2.43.0


From b45a65b9b66125c58eb3c48e237198978e94e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 028/143] fix: parts of sums and products without
 parametrization get their input

---
 sources/core/function.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..8419b8a 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -398,6 +398,20 @@ vec nonlinear_function::getParametersMin() const
 
 
 
+// Return X, given in the parametrization of WHOLE, in that of PART.
+static vec part_input(const vec& x, const parameters& whole,
+                      const parameters& part)
+{
+    // This includes functions that have no parametrization.
+    if (part.input_parametrization() == whole.input_parametrization())
+        return x;
+
+    vec res(part.dimX());
+    params::convert(&x[0], whole.input_parametrization(),
+                    part.input_parametrization(), &res[0]);
+    return res;
+}
+
 /*--- Compound functions implementation ----*/
 compound_function::~compound_function()
 {
@@ -412,9 +426,7 @@ vec compound_function::value(const vec& x) const
 	vec res = vec::Zero(parametrization().dimY());
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		vec temp_x(fs[i]->parametrization().dimX());
-    params::convert(&x[0], parametrization().input_parametrization(),
-                    fs[i]->parametrization().input_parametrization(), &temp_x[0]);
+		vec temp_x = part_input(x, parametrization(), fs[i]->parametrization());
 		res = res + fs[i]->value(temp_x);
 	}
 	return res;
@@ -437,9 +449,7 @@ vec compound_function::parametersJacobian(const vec& x) const
 		if(nb_f_params > 0 && !is_fixed[f])
 		{
 
-			vec temp_x(func->parametrization().dimX());
-      params::convert(&x[0], parametrization().input_parametrization(),
-                      func->parametrization().input_parametrization(), &temp_x[0]);
+			vec temp_x = part_input(x, parametrization(), func->parametrization());
 			vec func_jac = func->parametersJacobian(temp_x);
 
 			for(int i=0; i<nb_f_params; ++i)
@@ -857,16 +867,12 @@ vec product_function::value(const vec& x) const
 {
 	// Convert input space to the 1rst function parametrization and compute the
 	// output value
-	vec xf1(f1->parametrization().dimX());
-	params::convert(&x[0], parametrization().input_parametrization(),
-                  f1->parametrization().input_parametrization(), &xf1[0]);
+	vec xf1 = part_input(x, parametrization(), f1->parametrization());
 	vec f1res = f1->value(xf1);
 
 	// Convert input space to the 2nd function parametrization and compute the
 	// output value
-	vec xf2(f2->parametrization().dimX());
-	params::convert(&x[0], parametrization().input_parametrization(),
-                  f2->parametrization().input_parametrization(), &xf2[0]);
+	vec xf2 = part_input(x, parametrization(), f2->parametrization());
 	vec f2res = f2->value(xf2);
 
 	vec res = product(f1res, f2res);
@@ -1186,12 +1192,8 @@ vec product_function::parametersJacobian(const vec& x) const
 
 
 	// Convert the input value x to the input space of the f1tion
-	vec xf2(f2->parametrization().dimX());
-	params::convert(&x[0], parametrization().input_parametrization(),
-                  f2->parametrization().input_parametrization(), &xf2[0]);
-	vec xf1(f1->parametrization().dimX());
-	params::convert(&x[0], parametrization().input_parametrization(),
-                  f1->parametrization().input_parametrization(), &xf1[0]);
+	vec xf2 = part_input(x, parametrization(), f2->parametrization());
+	vec xf1 = part_input(x, parametrization(), f1->parametrization());
 
 	//Value of each function for the given x
 	vec f1_value = f1->value(xf1);
-- 
2.43.0


From 3dafa8577b58fdb29173e94a00bc953707284f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 029/143] fix: an unknown or unsuitable function name yields no
 function

A description whose name, member of a sum or right-hand side of a product
cannot be provided gave a rational function, a sum with a null member or
the left-hand side alone.
---
 sources/core/plugins_manager.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..2572e0f 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -289,6 +289,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
       else
       {
@@ -319,10 +321,14 @@ function* plugins_manager::get_function(const arguments& args,
       
       func =  myFunction(params);
     }
+    else if(filename == "rational_function")
+    {
+      func = new rational_function(params);
+    }
     else
     {
       std::cerr << "<<ERROR>> no function provider found in file \"" << filename << "\"" << std::endl;
-      return new rational_function(params) ;
+      return NULL;
     }
   }
 
@@ -340,7 +346,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_func == NULL)
       {
        std::cerr << "<<ERROR>> only non-linear function are permitted to use Fresnel" << std::endl;
-       return func;
+       delete func;
+       return NULL;
       }
 
       std::cout << "<<DEBUG>> multiplying by a Fresnel term" << std::endl;
@@ -358,7 +365,8 @@ function* plugins_manager::get_function(const arguments& args,
        {
          std::cerr << "<<ERROR>> Fresnel plugin not defined" << std::endl;
          std::cerr << "<<ERROR>> using --fresnel alone is not permitted" << std::endl;
-         return func;
+         delete func;
+         return NULL;
        }
        else // Case where the fresnel parameters is only the plugin filename
        {
@@ -394,8 +402,9 @@ function* plugins_manager::get_function(const arguments& args,
       }
       else
       {
-        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function. Will use only the left part." << std::endl;
-        return func;
+        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function." << std::endl;
+        delete func;
+        return NULL;
       }
    }
 
-- 
2.43.0


From c72839ebbd90116933a4b11e278ad20b3e0a8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 030/143] fix: a function file without dimensions, function or
 values is not loaded

---
 sources/core/plugins_manager.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 2572e0f..529d8c4 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -210,6 +210,11 @@ function* plugins_manager::load_function(const std::string& filename)
   arguments header = arguments::parse_header(file);
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
+  if(dim.first <= 0 || dim.second <= 0)
+  {
+    std::cerr << "<<ERROR>> the dimensions of the function are missing or invalid" << std::endl;
+    return NULL;
+  }
 
   param_in = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
@@ -219,12 +224,18 @@ function* plugins_manager::load_function(const std::string& filename)
 
   // Create the function from the command line
   function* f = get_function(args, params);
+  if(f == NULL)
+  {
+    return NULL;
+  }
 
-  // Load the function part from the file object
-  if( f->load(file) )
+  // Load the function part from the file object.  Most functions do not
+  // check that all of their values could be read.
+  if( f->load(file) && !file.fail() )
   {
     return f;
   }
+  delete f;
 
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
    return NULL;
-- 
2.43.0


From e8fa6b5a48891cb766c54fdf29ff1f777cf7fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 031/143] fix: a sum or product is loaded only when all its
 parts are

---
 sources/core/function.cpp | 41 ++++++---------------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 8419b8a..2f1c572 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -529,21 +529,13 @@ unsigned int compound_function::size() const
 
 bool compound_function::load(std::istream& in)
 {
-	int nb_good = 0; // Number of correctly openned functions
-	for(unsigned int i=0; i<fs.size(); ++i)
+	unsigned int nb_good = 0; // Number of correctly openned functions
+	while(nb_good < fs.size() && fs[nb_good]->load(in))
 	{
-		std::streampos pos = in.tellg();
-		if(!fs[i]->load(in))
-		{
-			in.seekg(pos);
-		}
-		else
-		{
-			nb_good++;
-		}
+		nb_good++;
 	}
 	std::cout << "<<DEBUG>> number of correct function loaded in compound: " << nb_good  << " / " << fs.size() << std::endl;
-	return nb_good > 0;
+	return nb_good == fs.size();
 }
 
 void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
@@ -884,29 +876,8 @@ vec product_function::value(const vec& x) const
 		
 bool product_function::load(std::istream& in)
 {
-	bool loaded_f1 = false,loaded_f2 = false;
-	std::streampos pos = in.tellg();
-
-	// Load the first function
-	if(f1) {
-		loaded_f1 = f1->load(in);
-		if(! loaded_f1)
-		{
-			in.seekg(pos);
-		}
-	}
-
-	pos = in.tellg();
-	// Load the second function
-	if(f2) {
-		loaded_f2 = f2->load(in);
-		if(! loaded_f2)
-		{
-			in.seekg(pos);
-		}
-	}
-
-	return loaded_f1 || loaded_f2;
+	// Both functions have to be loaded, in order
+	return f1->load(in) && f2->load(in);
 }
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
-- 
2.43.0


From d1e52f98956b153e75e90eaf66c896ba380d788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 032/143] fix: save the output parametrization of functions

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 2f1c572..18c4741 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,7 +136,7 @@ void function::save_header(std::ostream& out, const arguments& args) const
 		out << "#CMD " << args.get_cmd() << std::endl;
 		out << "#DIM " << parametrization().dimX() << " " << parametrization().dimY() << std::endl;
 		out << "#PARAM_IN  " << params::get_name(parametrization().input_parametrization()) << std::endl;
-		//out << "#PARAM_OUT " << params::get_name(output_parametrization()) << std::endl;*
+		out << "#PARAM_OUT " << params::get_name(parametrization().output_parametrization()) << std::endl;
 		if(args.is_defined("export-append")) 
 		{
 			out << args["export-append"] << std::endl;
-- 
2.43.0


From 4051993b1d5f309b5b5d561407e43f037f4a9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 033/143] fix: exporting to the ALTA format writes the header

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 18c4741..6478cc8 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -130,7 +130,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
@@ -331,7 +331,7 @@ bool nonlinear_function::load(std::istream& in)
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		// Dump a #FUNC nonlinear
 		out << "#FUNC nonlinear_function" << std::endl;
-- 
2.43.0


From 6b4147d8036c470e330520c5eb49c04b906da985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 034/143] fix: normalized Schlick Fresnel terms have storage
 for their parameters

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..f04da10 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(params.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From bb45a2636c915088b0e605a82e328a820b9476f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 035/143] fix: read the type of retro Beckmann functions as it
 is written

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..4052122 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -225,7 +225,7 @@ bool beckmann_function::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token.compare("RETRO") != 0) 
+	if(token.compare("BACK") != 0) 
 	{ 
 		_use_back_param = false;
 	}
-- 
2.43.0


From 0a5df7a3399962f895e260f3816af918e53a4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 036/143] fix: retro Yoo functions are written as they are read

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..3195af1 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -187,8 +187,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
-
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << "Kr " << _kr[i] << std::endl;
-- 
2.43.0


From 1270d0295a29c0ac9808b88a3ee233abfe07eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 037/143] fix: Lafortune functions start with one lobe and a
 Cartesian input

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..0333f34 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,8 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params.set_input(6, params::CARTESIAN)),
+    _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From 50418acaa98051fad37a542ae6032ba812316d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 038/143] fix: all lobes and the diffuse term of Lafortune
 functions are reloaded

---
 .../nonlinear_function_lafortune/function.cpp | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 0333f34..e21bf90 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -405,10 +405,26 @@ bool lafortune_function::load(std::istream& in)
 	 // Shoudl have the #NB_LOBES [int]
 	 int nb_lobes;
 	 in >> token >> nb_lobes;
+	 if(!in || token != "#NB_LOBES" || nb_lobes < 0)
+	 {
+		 std::cerr << "<<ERROR>> cannot access to the number of lobes" << std::endl;
+		 return false;
+	 }
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
     const int _nY = _parameters.dimY();
+
+	// Parse the diffuse term, if any
+	in >> std::ws;
+	_kd = vec::Zero(_nY);
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token != "#DIFFUSE") { return false; }
+		for(int i=0; i<_nY; ++i) { in >> _kd[i]; }
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
@@ -417,7 +433,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
@@ -436,6 +452,9 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     {
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
+        out << "#DIFFUSE";
+        for(int i=0; i<_nY; ++i) { out << " " << _kd[i]; }
+        out << std::endl;
 
         for(int n=0; n<_n; ++n)
         {
-- 
2.43.0


From 6033a43190a7dfbfff6ed1d5ea6a40b9a7729f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 039/143] fix: the lobe type of spherical Gaussians is saved
 and reloaded

---
 .../function.cpp                              | 49 ++++++++++++-------
 .../function.h                                |  4 ++
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..b82bef2 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -22,6 +22,10 @@
 
 using namespace alta;
 
+// The names of the lobe types, in the order of the enumeration.
+static const char* const type_names[] =
+    { "mirror", "half", "retro", "back", "moment" };
+
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
     return new spherical_gaussian_function(params);
@@ -221,6 +225,19 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
+bool spherical_gaussian_function::parse_type(const std::string& name, type& t)
+{
+	for(int i=Mirror; i<=Moment; ++i)
+	{
+		if(name == type_names[i])
+		{
+			t = static_cast<type>(i);
+			return true;
+		}
+	}
+	return false;
+}
+
 void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i)
@@ -233,25 +250,8 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 	if(args.is_defined("sg-type"))
 	{
 		std::string stype = args.get_string("sg-type", "half");
-		if(stype == "mirror")
-		{
-			_type = Mirror;
-		}
-		else if(stype == "half")
+		if(parse_type(stype, _type) && _type == Moment)
 		{
-			_type = Half;
-		}
-		else if(stype == "back")
-		{
-			_type = Back;
-		}
-		else if(stype == "retro")
-		{
-			_type = Retro;
-		}
-		else if(stype == "moment")
-		{
-			_type = Moment;
 			_a = 1.0;
 		}
 	}
@@ -288,6 +288,16 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the lobe type, if any
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token != "#TYPE") { return false; }
+		in >> token;
+		if(!parse_type(token, _type)) { return false; }
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -315,6 +325,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		out << "#TYPE " << type_names[_type] << std::endl;
 
          for(int i=0; i<nY; ++i)
 		 {
@@ -324,7 +335,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	
 		 if(_type == Moment)
 		 {
-			 out << "a  " << _a;
+			 out << "a  " << _a << std::endl;
 		 }
 
 		 out << std::endl;
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.h b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
index d1bef3a..655da84 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.h
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
@@ -98,6 +98,10 @@ class spherical_gaussian_function : public nonlinear_function
 		//! different evaluations.
 		double compute_dot(const vec& in) const;
 
+		//! \brief Get the lobe type of the given name; return false if there
+		//! is none.
+		static bool parse_type(const std::string& name, type& t);
+
 	private: // data
 
 		vec _n, _ks; // Lobes data
-- 
2.43.0


From 768703cfe98d66dd37ec9d7b64dd9ef27415a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 040/143] fix: ABC functions have the input dimension of their
 parametrization

---
 .../nonlinear_function_abc/function.cpp       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..7396864 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -154,17 +154,11 @@ void abc_function::bootstrap(const ptr<data> d, const arguments& args)
 	
 	if(args.is_defined("param"))
 	{
-      alta::parameters new_params(_parameters.dimX(), _parameters.dimY(),
-                                  params::parse_input(args["param"]),
-                                  _parameters.output_parametrization());
-      setParametrization(new_params);
+      setParametrization(_parameters.set_input(1, params::parse_input(args["param"])));
 	}
 	else
 	{
-      alta::parameters new_params(_parameters.dimX(), _parameters.dimY(),
-                                  params::COS_TH,
-                                  _parameters.output_parametrization());
-      setParametrization(new_params);
+      setParametrization(_parameters.set_input(1, params::COS_TH));
 	}
 	if(params::dimension(_parameters.input_parametrization()) != 1)
 	{
@@ -211,14 +205,15 @@ bool abc_function::load(std::istream& in)
 	}
 	in >> token;
 
-	setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(),
-                                      params::parse_input(token),
-                                      _parameters.output_parametrization()));
-
-	if(params::dimension(_parameters.input_parametrization()) != 1)
+	const params::input param = params::parse_input(token);
+	if(params::dimension(param) != 1)
 	{
 		std::cerr << "<<ERROR>> the parametrization specifed in the file for the ABC model is incorrect" << std::endl;
 	}
+	else
+	{
+		setParametrization(_parameters.set_input(1, param));
+	}
 
 	// Parse the lobe
 	for(int i=0; i<parametrization().dimY(); ++i)
-- 
2.43.0


From 0f49cc92af599f9d3e6e002bb908d6d0b42a41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 041/143] fix: retro Blinn parts of sums and products keep
 their parametrization

---
 .../nonlinear_function_retroblinn/function.cpp   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..ca3a511 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -88,6 +88,20 @@ bool retroblinn_function::load(std::istream& in)
         return false;
     }
 
+    // The parametrization of the input, if any
+    in >> std::ws;
+    if(in.peek() == '#')
+    {
+        in >> token;
+        if(token != "#PARAM") { return false; }
+        in >> token;
+        const params::input param = params::parse_input(token);
+        if(param != params::UNKNOWN_INPUT)
+        {
+            setParametrization(_parameters.set_input(params::dimension(param), param));
+        }
+    }
+
     // ks [double]
 	 // N  [double]
     for(int i=0; i<_parameters.dimY(); ++i)
@@ -178,6 +192,8 @@ void retroblinn_function::save_call(std::ostream& out,
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_retroblinn" << std::endl ;
+		out << "#PARAM " << params::get_name(_parameters.input_parametrization())
+        << std::endl;
 
 		 for(int i=0; i<_parameters.dimY(); ++i)
 		 {
-- 
2.43.0


From 56a8b83beb744252d12738c670b4a499b63c43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 042/143] fix: incomplete rational functions are not loaded

---
 sources/core/rational_function.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..3198adf 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -50,6 +50,9 @@ bool rational_function_1d::load(std::istream& in)
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
 	if(token != "#NQ") { return false; }
+
+	// The denominator has at least one coefficient
+	if(!in || _np < 0 || _nq < 1) { return false; }
 	vec a(_np), b(_nq);
 
 	// Parse the p_i coefficients
@@ -73,6 +76,8 @@ bool rational_function_1d::load(std::istream& in)
 		}
 		in >> b[j];
 	}
+	if(!in) { return false; }
+
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
-- 
2.43.0


From d945205db15f8f644224a5551f045ba2bf5c3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 043/143] fix: Schlick Fresnel parts of sums and products keep
 their parametrization

---
 .../nonlinear_fresnel_schlick/function.cpp       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..2d4e1c3 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -65,6 +65,20 @@ bool schlick_fresnel::load(std::istream& in)
         return false;
     }
 
+    // The parametrization of the input, if any
+    in >> std::ws;
+    if(in.peek() == '#')
+    {
+        in >> token;
+        if(token != "#PARAM") { return false; }
+        in >> token;
+        const params::input param = params::parse_input(token);
+        if(param != params::UNKNOWN_INPUT)
+        {
+            setParametrization(_parameters.set_input(params::dimension(param), param));
+        }
+    }
+
     // R [double]
     for(int i=0; i<_parameters.dimY(); ++i)
     {
@@ -80,6 +94,8 @@ void schlick_fresnel::save_call(std::ostream& out, const arguments& args) const
     if(is_alta)
     {
         out << "#FUNC nonlinear_fresnel_schlick" << std::endl ;
+        out << "#PARAM " << params::get_name(_parameters.input_parametrization())
+            << std::endl;
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << "R " << R[i] << std::endl;
-- 
2.43.0


From 3cc63cbe42200df314092372d926c51b155e9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 044/143] fix: plugin names shorter than two characters or
 ending in 'so' are found

library_name() took substr(n-2) of any name, which throws for the empty
name and for names of one character, and took any name that ends in 'so'
for a file name.
---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 529d8c4..c7de531 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 3 || name.substr(n-3) != std::string(".so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From 9311623c22a494daca24be562a53b56f0b9f719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 045/143] fix: keep the symbols of plugins apart

Plugins define classes of the same name (retrobeckmann and beckmann, for
instance); with RTLD_GLOBAL the one loaded first answered for both.
---
 sources/core/plugins_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index c7de531..2124b04 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -141,7 +141,8 @@ static T open_library(const std::string& filename, const char* function)
      continue;
     }
 #else
-    void* handle = dlopen(libname.c_str(), RTLD_GLOBAL | RTLD_LAZY);
+    // Plugins may define classes of the same name: keep them apart.
+    void* handle = dlopen(libname.c_str(), RTLD_LOCAL | RTLD_LAZY);
 
    if(handle != NULL)
    {
-- 
2.43.0


From d3929dcc07b484f1671a1f4b5dc2d77d71123080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 046/143] fix: retro Yoo functions have a value

The value was multiplied into an uninitialised vector, and the vector of
parameters was longer than the number of parameters.
---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 3195af1..652ac83 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From a03b618913a07cc2dd86cf1e7ea798028906f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 047/143] fix: numerators and denominators are summed from zero

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 3198adf..40a1794 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -268,7 +268,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -280,7 +280,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 6ce9cdd45a1739816419381a1f4c8092083c2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 048/143] fix: new coefficients of rational functions are zero

---
 sources/core/rational_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index a45fd12..521e9a4 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -150,7 +150,7 @@ class rational_function_1d : public function
 		// for each dimension.
 		struct coeff
 		{
-			coeff() {}
+			coeff() : a(0.0) {}
 			coeff(double a, std::vector<int> deg) :
 				a(a), deg(deg) { }
 
-- 
2.43.0


From 2f7a91a5a862a8f25be1940bcedd35151aa3be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 049/143] fix: coefficients added by an update have a degree

---
 sources/core/rational_function.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 40a1794..de11e27 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -188,12 +188,7 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int nq = in_b.size();
 
 	// Resize the coefficient vector if they do not match
-	if(np != _p_coeffs.size()) {
-		_p_coeffs.resize(np);
-	}
-	if(nq != _q_coeffs.size()) {
-		_q_coeffs.resize(nq);
-	}
+	resize(np, nq);
 
 #define NORMALIZE
 
-- 
2.43.0


From 043fa5dfae7c14b49b2fa1d26bee92aeec7ac3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 050/143] fix: update an output that has no rational function
 yet

---
 sources/core/rational_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index de11e27..32f541c 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -549,7 +549,7 @@ rational_function::~rational_function()
 
 void rational_function::update(int i, rational_function_1d* r)
 {
-	rs[i]->update(r);
+	get(i)->update(r);
 }
 
 
-- 
2.43.0


From 13ad6647843422b10c1c72cfa447d940de9447e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 051/143] fix: loading a rational function replaces its domain

---
 sources/core/rational_function.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 32f541c..a3e03cf 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -667,6 +667,9 @@ bool rational_function::load(std::istream& in)
 	for(int k=0; k<_parameters.dimX(); ++k) {in >> max[k]; }
 	setMax(max);
 
+	// The outputs are created anew, with this domain
+	clear();
+
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		// Update the i_th color channel
-- 
2.43.0


From 448cd7212e7a1cc530e41b27748348b984366859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 052/143] fix: consider all the inequalities when picking the
 worst ones

---
 external/quadprog++/QuadProg++.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..9c844dc 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -124,19 +124,20 @@ double solve_quadprog(Ref<MatrixXd> G, Ref<const VectorXd> g0,
   return solve_quadprog_with_guess(G, g0, CE, ce0, CI, ci0, x);
 }
 
+// Reorder the entries start..end-1 so that the smallest values come first, up
+// to the index ncut.
 template <typename ValuesType, typename MatrixType, typename VectorType>
-void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, int ncut)
+void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, int end, int ncut)
 {
   typedef typename ValuesType::RealScalar RealScalar;
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
   Index first, last ;
 
   ncut--; // to fit the zero-based indices
   first = start;
-  last = n-1;
+  last = end-1;
   if (ncut < first || ncut > last ) return;
 
   do {
@@ -387,7 +388,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 
         // Pack worst inequalities right after the active set
         chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,chunk_size-iq);
+        partial_sort(s,CI,ci0,iq,m,chunk_size);
 
         done_with_current_subset = true;
         continue;
-- 
2.43.0


From 1ed81c7d2a7350ba2762cde9da79d26c8f47fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 053/143] fix: keep the chunk size within the number of
 inequalities

---
 external/quadprog++/QuadProg++.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 9c844dc..4c13ff9 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -258,8 +258,10 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   for (int i = 0; i < m; i++) iai[i] = i;
 
   int chunk_start=0, chunk_size = scheduling.initial_chunk_size;
-  if(scheduling.mode==Scheduling::WorstFirst)
+  if(scheduling.mode==Scheduling::WorstFirst || chunk_size > m)
     chunk_size = m;
+  if(chunk_size < 1)
+    chunk_size = std::min(1, m);
 
 //   if(active_set)
 //   {
@@ -281,7 +283,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
   int iter = 0;
-  int nb_chunks = (m+chunk_size-1)/chunk_size;
+  int nb_chunks = m > 0 ? (m+chunk_size-1)/chunk_size : 0;
   int nb_satisfied_chunks = 0;
   while(iter<=10*m) // make sure we do not run into an infinite loop
   {
-- 
2.43.0


From f2179f97fee3b7e38d90a66161f71e5036cbb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 054/143] fix: always enlarge a sliding window that has to grow

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 4c13ff9..dece209 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -346,7 +346,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           // in this case, let's enlarge the current window size, and re-start sliding from the head,
           // until the window covers the entire set of constriants
           chunk_start = 0;
-          chunk_size = std::min(m,int(chunk_size*scheduling.grow_factor));
+          chunk_size = std::min(m,std::max(chunk_size+1,int(chunk_size*scheduling.grow_factor)));
           continue;
         }
         else
-- 
2.43.0


From 66d67e5f781f2a9e17e1ed05f1055dbef3aa0463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 055/143] fix: do not count the equalities among the packed
 inequalities

---
 external/quadprog++/QuadProg++.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index dece209..e8b2ba3 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -380,17 +380,18 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           }
         }
         for (int i = 0; i < m; i++) iai[i] = i;
-        for(int i=p; i<iq; ++i)
+        const int na = iq-p; // number of active inequalities
+        for(int i=0; i<na; ++i)
           iai[i] = -1;
 
         // Update all remaining inequalities
-        s.tail(m-iq)            = ci0.tail(m-iq);
-        s.tail(m-iq).noalias() += CI.rightCols(m-iq).transpose() * x;
-        flops1 += (m-iq) * n;
+        s.segment(na,m-na)            = ci0.tail(m-na);
+        s.segment(na,m-na).noalias() += CI.rightCols(m-na).transpose() * x;
+        flops1 += (m-na) * n;
 
         // Pack worst inequalities right after the active set
-        chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,m,chunk_size);
+        chunk_size = std::min(m,std::max(chunk_size,na*2));
+        partial_sort(s,CI,ci0,na,m,chunk_size);
 
         done_with_current_subset = true;
         continue;
-- 
2.43.0


From 64a79deab3f586378dd9793344f7fd2903ee587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 056/143] fix: return the active set in terms of the
 inequalities given by the caller

---
 external/quadprog++/QuadProg++.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index e8b2ba3..fc35f31 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -126,8 +126,8 @@ double solve_quadprog(Ref<MatrixXd> G, Ref<const VectorXd> g0,
 
 // Reorder the entries start..end-1 so that the smallest values come first, up
 // to the index ncut.
-template <typename ValuesType, typename MatrixType, typename VectorType>
-void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, int end, int ncut)
+template <typename ValuesType, typename MatrixType, typename VectorType, typename IndicesType>
+void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, IndicesType &indices, int start, int end, int ncut)
 {
   typedef typename ValuesType::RealScalar RealScalar;
   typedef typename ValuesType::Index Index;
@@ -148,12 +148,14 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
         ++mid;
         swap(values(mid), values(j));
         swap(m(mid), m(j));
+        swap(indices(mid), indices(j));
         M.col(mid).swap(M.col(j));
       }
     }
     /* Interchange for the pivot element */
     swap(values(mid), values(first));
     swap(m(mid), m(first));
+    swap(indices(mid), indices(first));
     M.col(mid).swap(M.col(first));
 
     if (mid > ncut) last = mid - 1;
@@ -254,6 +256,10 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     }
   }
 
+  // the inequalities are permuted by some schedulings: perm gives the original indices
+  VectorXi perm(m);
+  for (int i = 0; i < m; i++) perm[i] = i;
+
   // set iai = K \ A
   for (int i = 0; i < m; i++) iai[i] = i;
 
@@ -374,6 +380,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
             while(iai[j]==-1) j++;
             std::swap(s(Ai), s(j));
             std::swap(ci0(Ai), ci0(j));
+            std::swap(perm(Ai), perm(j));
             CI.col(Ai).swap(CI.col(j));
             A[i] = j;
             j++;
@@ -391,7 +398,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 
         // Pack worst inequalities right after the active set
         chunk_size = std::min(m,std::max(chunk_size,na*2));
-        partial_sort(s,CI,ci0,na,m,chunk_size);
+        partial_sort(s,CI,ci0,perm,na,m,chunk_size);
 
         done_with_current_subset = true;
         continue;
@@ -591,7 +598,11 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   g_u = u;
 
   if(active_set)
+  {
     *active_set = A.head(iq);
+    for(int i=p; i<iq; ++i)
+      active_set->coeffRef(i) = perm[A[i]];
+  }
 
   TRACE_SOLVER_(std::cout << "#iterations = " << iter << " ; inequality update costs: " << 1e-9*flops0 << " + " << 1e-9*flops1 << " = " << 1e-9*(flops0+flops1) << " GFlops");
 
-- 
2.43.0


From 63003d24b4cca518e9e5c4b9ccde2086acdceb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 057/143] fix: give the incremental quadratic program a zero
 linear term

---
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..fa50a6b 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -99,7 +99,7 @@ class quadratic_program
          const int n = CI.cols();
 
          Eigen::MatrixXd G (m, m) ;
-         Eigen::VectorXd g (m) ;
+         Eigen::VectorXd g = Eigen::VectorXd::Zero(m) ;
          Eigen::VectorXd ci(n) ;
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
-- 
2.43.0


From 37406b23ee7ee7401ecd92443c348af749e46774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 058/143] fix: keep delta finite when the constraints are
 linearly dependent

---
 sources/plugins/rational_fitters/quadratic_program.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index fa50a6b..2b374f1 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -109,9 +109,13 @@ class quadratic_program
             // Update the ci column with the delta parameter
             // (See Celis et al. 2007 p.12)
             Eigen::JacobiSVD<Eigen::MatrixXd, Eigen::HouseholderQRPreconditioner> svd(CI.transpose());
-            const double sigma_m = svd.singularValues()(std::min(m, n)-1) ;
-            const double sigma_M = svd.singularValues()(0) ;
-            delta = sigma_M / sigma_m ;
+            // Singular values that are null would give an infinite delta.
+            if(svd.rank() > 0)
+            {
+               const double sigma_m = svd.singularValues()(svd.rank()-1) ;
+               const double sigma_M = svd.singularValues()(0) ;
+               delta = sigma_M / sigma_m ;
+            }
          }
 
          // Select the size of the result vector to
-- 
2.43.0


From 9e51c63f3ab755661003f7e438a06547364953ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:08 +0000
Subject: [PATCH 059/143] fix: use the --nb-starting-points option of the
 parallel rational fitter

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..344daa5 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -139,7 +139,7 @@ class rational_fitter_parallel : public fitter
          const int _max_np = args.get_int("np", _min_np);
          std::cout << "<<INFO>> N in  [" << _min_np << ", " << _max_np << "]"  << std::endl ;
 
-         const int nb_starting_points = args.get_int("nb-starting-points", 100);
+         nb_starting_points = args.get_int("nb-starting-points", 100);
          std::cout << "<<INFO>> number of data point used in start: " << nb_starting_points << std::endl;
 
          const int  step      = args.get_int("np-step", 1);
@@ -300,7 +300,7 @@ class rational_fitter_parallel : public fitter
 
          // Starting with only a nb_starting_points vertical segments
          std::list<unsigned int> training_set;
-         const int di = std::max((m-1) / (nb_starting_points-1), 1);
+         const int di = std::max((m-1) / std::max(nb_starting_points-1, 1), 1);
          for(int i=0; i<m; ++i)
          {
             if(i % di == 0)
-- 
2.43.0


From ef95b1eae96720097ae273349efb46f6e053cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 060/143] fix: solve the last program of the parallel rational
 fitter

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 344daa5..224bfa6 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -320,7 +320,8 @@ class rational_fitter_parallel : public fitter
          }
          qp.set_training_set(training_set);
 
-         do
+         // Each iteration that does not return adds an interval to the program
+         while(true)
          {
 #ifdef _OPENMP
 #ifdef DEBUG
@@ -348,9 +349,7 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
-
-         return false;
+         }
       }
 
       void get_constraint(int i, int np, int nq, int ny,
-- 
2.43.0


From 0f5b5327baeb327299233ec146759f4cea0abd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 061/143] fix: the result of the parallel rational fitter does
 not depend on the order of its threads

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 224bfa6..c1dffc8 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -163,6 +163,7 @@ class rational_fitter_parallel : public fitter
 
             double min_delta   = std::numeric_limits<double>::max();
             double min_l2_dist = std::numeric_limits<double>::max();
+            int best_nq = i;
             double mean_delta = 0.0;
             int nb_sol_found  = 0;
             int nb_sol_tested = 0;
@@ -217,9 +218,14 @@ class rational_fitter_parallel : public fitter
                      std::cout << std::endl;
 
                      // Get the solution with the minimum delta or the minimum L2 distance,
-                     // and update the main rational function r.
-                     if((use_delta && delta < min_delta) || (!use_delta && l2_dist < min_l2_dist))
+                     // and update the main rational function r. Equal solutions are
+                     // told apart by their size, and not by the order in which the
+                     // threads find them.
+                     const double crit     = use_delta ? delta : l2_dist;
+                     const double min_crit = use_delta ? min_delta : min_l2_dist;
+                     if(crit < min_crit || (crit == min_crit && temp_nq < best_nq))
                      {
+                        best_nq     = temp_nq;
                         min_delta   = delta ;
                         min_l2_dist = l2_dist ;
                         r->setSize(temp_np, temp_nq);
-- 
2.43.0


From 0862cf5b332bc04ddd932582562b42d78ec043eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 062/143] fix: remove the global variable written by every
 thread that solves a quadratic program

---
 external/quadprog++/QuadProg++.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index fc35f31..a8f16ec 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -163,8 +163,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, IndicesType
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -595,8 +593,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
-
   if(active_set)
   {
     *active_set = A.head(iq);
-- 
2.43.0


From 703f0a3a6e69c69cd6469e4d2de940f460021a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 063/143] fix: compare the violations of a quadratic program to
 the magnitude of its constraints

---
 external/quadprog++/QuadProg++.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index a8f16ec..a4bd66e 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -283,6 +283,9 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 //     //u[iq] = r[iq] = d[iq] = z[iq] = 0;
 //   }
 
+  // the violations are compared to the magnitude of the constraints
+  const double scale = m > 0 ? std::max(1.0, ci0.cwiseAbs().maxCoeff()) : 1.0;
+
   bool done_with_active_set = active_set==0 || active_set->size()==0;
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
@@ -332,7 +335,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
       }
     }
 
-    if (std::abs(psi) <= std::max(chunk_size,iq) * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0)
+    if (std::abs(psi) <= std::max(chunk_size,iq) * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0 * scale)
     {
       if(!done_with_active_set)
       {
-- 
2.43.0


From 4498fb3c8ae787ebb752d0708a1ffd980853def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 064/143] fix: convert plain data for the parallel rational
 fitter sample by sample

---
 .../rational_fitters/quadprog_parallel.cpp    | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index c1dffc8..4f4893e 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -97,35 +97,39 @@ class rational_fitter_parallel : public fitter
 
          ptr<vertical_segment> d = dynamic_pointer_cast<vertical_segment>(dat) ;
          if(!d
-               || d->confidence_interval_kind() != vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
+               || d->confidence_interval_kind() == vertical_segment::NO_CONFIDENCE_INTERVAL)
          {
             std::cerr << "<<WARNING>> automatic convertion of the data object to vertical_segment," << std::endl;
             std::cerr << "<<WARNING>> we advise you to perform convertion with a separate command." << std::endl;
 
-            size_t elem_size =
-               dat->parametrization().dimX() + 3*dat->parametrization().dimY();
+            const int dimX = dat->parametrization().dimX();
+            const int dimY = dat->parametrization().dimY();
+            const double dt = args.get_float("dt", 0.1);
+
+            size_t elem_size = dimX + 3*dimY;
             double* content = new double[dat->size() * elem_size];
 
             for(int i=0; i<dat->size(); ++i)
             {
                const vec x = dat->get(i);
 
-               for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
-               }
-               for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
-                     (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+               double* elem = content + i*elem_size;
+
+               for(int k=0; k<dimX+dimY; ++k) {
+                  elem[k] = x[k];
                }
-               for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
-                     (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+               for(int k=0; k<dimY; ++k) {
+                  const double lower = (1.0 - dt) * x[k + dimX];
+                  const double upper = (1.0 + dt) * x[k + dimX];
+                  elem[k + dimX + dimY]   = std::min(lower, upper);
+                  elem[k + dimX + 2*dimY] = std::max(lower, upper);
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content,
+                                             std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From b4a3193a39a9560527673db4e0aaa1f9fb4a81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 065/143] fix: an unfinished quadratic program is not a
 solution

---
 sources/plugins/rational_fitters/quadprog.cpp        | 2 +-
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index e1f4f1b..c282a03 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -386,7 +386,7 @@ class rational_fitter_quadprog : public fitter
                Xf << std::setprecision(16) << x[k] << "\n";
          }
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          for(int i=0; i<np+nq; ++i)
          {
             const double v = x[i];
diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 2b374f1..9854416 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -143,7 +143,7 @@ class quadratic_program
          // Compute the solution
          const double cost = QuadProgPP::solve_quadprog(G, g, CE, ce, CI, ci, v);
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          return solves_qp;
       }
 
-- 
2.43.0


From f358eb4aeac6af8933681e21b97c40d7e4c77cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:35 +0000
Subject: [PATCH 066/143] fix: the parallel rational fitter accepted
 denominators that change sign between the samples

---
 .../rational_fitters/quadratic_program.h      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 9854416..40d05d2 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -10,6 +10,9 @@
 
 #pragma once
 
+#include <limits>
+#include <list>
+
 #include <Eigen/Dense>
 #include <QuadProg++.hh>
 
@@ -70,6 +73,8 @@ class quadratic_program
 
          if(solves_qp)
          {
+            _solution = x;
+
             double norm = 0.0;
             for(int i=0; i<_np+_nq; ++i)
             {
@@ -155,8 +160,8 @@ class quadratic_program
       {
 #ifdef PACANOWSKI2012
             int nb_failed = 0;
-            double max_dev = 0.0; // Maximum absolute distance of the current
-                                  // solution to the data.
+            double max_dev = -1.0; // Maximum absolute distance of the current
+                                   // solution to the data.
             std::list<unsigned int>::iterator max_ind;
             vec cu, cl;
 
@@ -169,9 +174,21 @@ class quadratic_program
                vec y = r->value(x);
                bool fail_upper = y[0] > yu[ny];
                bool fail_lower = y[0] < yl[ny];
-               if(fail_lower || fail_upper)
+               // The solution of the program has a negative denominator where it
+               // is constrained: a sign change would put a pole between samples.
+               double q = 0.0;
+               for(int j=0; j<_nq; ++j)
+               {
+                  q += _solution[_np+j] * r->q(x, j);
+               }
+               bool fail_sign  = !(q < 0.0);
+               if(fail_lower || fail_upper || fail_sign)
                {
-                  const double dev = std::abs(0.5*(yu[ny]+yl[ny]) - y[0]);
+                  double dev = std::abs(0.5*(yu[ny]+yl[ny]) - y[0]);
+                  if(!(dev < std::numeric_limits<double>::max()))
+                  {
+                     dev = std::numeric_limits<double>::max();
+                  }
 
                   nb_failed++;
 
@@ -241,6 +258,9 @@ class quadratic_program
       bool _compute_delta;
       Eigen::MatrixXd CI;
 
+      //! Last solution of the program
+      Eigen::VectorXd _solution;
+
       //! Contains the indices of the vertical segment unused during the
       //! rational interpolation.
       std::list<unsigned int> training_set;
-- 
2.43.0


From 199d558b40e4cb4d79ff3c84a777eee90c974893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 067/143] fix: a fit cannot start from parameters outside the
 bounds (Eigen fitter)

---
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..df91921 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -359,6 +359,15 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 EigenFunctor functor(nf, d, args.is_defined("fit-with-cosine"));
 		 Eigen::LevenbergMarquardt<EigenFunctor> lm(functor);
 
+		 // The minimization does not stop by itself when the function cannot be
+		 // evaluated at the starting point.
+		 Eigen::VectorXd start(functor.values());
+		 if(functor(x, start) < 0)
+		 {
+			 std::cerr << "<<ERROR>> the starting parameters are not within the bounds" << std::endl;
+			 return false;
+		 }
+
 		 info = lm.minimize(x);
 
 		 if(info == Eigen::LevenbergMarquardtSpace::ImproperInputParameters)
-- 
2.43.0


From 7ad9fe155e2cea87b5592383b99cb21655c01725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 068/143] fix: report the failures of the search (CERES fitter)

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..d7ad9e8 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -176,6 +176,13 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 #ifdef DEBUG
 	 std::cout << summary.BriefReport() << std::endl;
 #endif
+	 // This is the case when the starting parameters are not within the bounds
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> the search failed: " << summary.message << std::endl;
+		 return false;
+	 }
+
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
-- 
2.43.0


From c8c1736086bfb447c4b2caf08289f3fb5d21ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 069/143] fix: the derivative of the logarithmic distance
 (CERES fitter)

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index d7ad9e8..a929f9d 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From 24e3c3e518c8177971ab30465394bfab341dd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 070/143] fix: gradient and parameter tolerances are options of
 their own (CERES fitter)

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index a929f9d..7f6de14 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -220,13 +220,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From 0d6d090e1ac982e12a7f491aecd9bc4139b3b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 071/143] fix: the NLOpt fitter never ended when the function
 is undefined for the parameters it looks at

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..d6c9a92 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -134,6 +134,15 @@ double f(unsigned n, const double* x, double* dy, void* dat)
 		df(dy, _f, _d);
 	}
 
+	// The optimizers do not stop by themselves when the function or its
+	// derivatives are not defined.
+	bool defined = std::isfinite(y);
+	for(unsigned i=0; dy != NULL && i<n; ++i) { defined = defined && std::isfinite(dy[i]); }
+	if(!defined)
+	{
+		nlopt_force_stop((nlopt_opt)(((void**)dat)[2]));
+	}
+
 	return y;
 }
 
@@ -275,9 +284,10 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 
 	// Create the problem
-	void* dat[2];
+	void* dat[3];
 	dat[0] = (void*)nf.get();
 	dat[1] = (void*)d.get();
+	dat[2] = (void*)opt;
 	res = nlopt_set_min_objective(opt, f, dat);
 	if(res < 0)
 	{
-- 
2.43.0


From 78ba0d88f2c5bad5821c357bf81f600a1f846640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 072/143] fix: refuse MERL files with other dimensions or
 without all of their samples

---
 sources/plugins/data_io/merl.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..e9d754b 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <ios>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
 #define BRDF_SAMPLING_RES_THETA_D  90
@@ -427,18 +428,18 @@ static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
     input.read((char *) &dims, sizeof dims);
-		int n = dims[0] * dims[1] * dims[2];
-		if (n != BRDF_SAMPLING_RES_THETA_H *
-        BRDF_SAMPLING_RES_THETA_D *
-        BRDF_SAMPLING_RES_PHI_D / 2)
+		if (!input ||
+        dims[0] != BRDF_SAMPLING_RES_THETA_H ||
+        dims[1] != BRDF_SAMPLING_RES_THETA_D ||
+        dims[2] != BRDF_SAMPLING_RES_PHI_D / 2)
 		{
         fprintf(stderr, "Dimensions don't match\n");
         return false;
 		}
 
-    input.read((char *) brdf, 3 * n * sizeof(double));
+    input.read((char *) brdf, 3 * MERL_SIZE * sizeof(double));
 
-		return true;
+		return (bool) input;
 }
 
 
@@ -454,8 +455,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 
     if(!read_brdf(input, result->brdf))
 		{
-        std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        throw std::ios_base::failure("unable to load the data as a MERL file");
 		}
 
     return result;
-- 
2.43.0


From e3a98f20a62c40bed4a63d2ec2829e4fda469135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 073/143] fix: saving a MERL file that cannot be written
 crashed or went unnoticed

---
 sources/plugins/data_io/merl.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index e9d754b..c86a948 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -114,6 +114,8 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if(f == NULL)
+			throw std::ios_base::failure("unable to write file \"" + filename + "\"");
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
@@ -122,10 +124,11 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
-
-		fclose(f);
+		bool saved = fwrite(dims, sizeof(int), 3, f) == 3;
+		saved = fwrite(brdf, sizeof(double), 3*n, f) == size_t(3*n) && saved;
+		saved = fclose(f) == 0 && saved;
+		if(!saved)
+			throw std::ios_base::failure("unable to write file \"" + filename + "\"");
 	}
 
 	// Acces to data
-- 
2.43.0


From e9a507476e75834c4182617091afbb247ab39cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 074/143] fix: write UTIA binary files in the format they are
 read

---
 sources/plugins/data_io/utia.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..df7e860 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -140,12 +140,10 @@ public:
 			delete[] temp;
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
+			stream.close();
+			if(!stream) {
+				throw std::ios_base::failure("unable to write file \"" + filename + "\"");
 			}
 		}
 	}
-- 
2.43.0


From b08d6cb2ada49d21207935d92af76e0b889b607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 075/143] fix: refuse truncated UTIA files

---
 sources/plugins/data_io/utia.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index df7e860..f083cd1 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -342,6 +342,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
 		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input) {
+			delete result;
+			throw std::ios_base::failure("not enough samples for a UTIA binary file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From f17a6edb7819c0131013f4e41c0e0eeb5027422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 076/143] fix: a new UTIA table has undefined samples

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index f083cd1..351b63a 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -103,7 +103,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
-- 
2.43.0


From 2e233a7bfe748998c46b93d21257b27f7a9cd9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 077/143] fix: unreadable EXR files gave tables with undefined
 samples and dimensions

---
 sources/plugins/data_io/slice.cpp | 3 ++-
 sources/plugins/data_io/utia.cpp  | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..4c36fa7 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -273,7 +273,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data))
+        throw std::ios_base::failure("unable to load the data as an EXR file");
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 351b63a..4fa89e5 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -323,8 +323,13 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	std::string filename = args["filename"];
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
-		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+		double *temp = NULL; int W, H;
+		if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp) ||
+		   W != result->npi*result->nti || H != result->npv*result->ntv) {
+			delete[] temp;
+			delete result;
+			throw std::ios_base::failure("unable to load the data as a UTIA EXR file");
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
-- 
2.43.0


From 39f66017453276b27fe7b42fab8c31e35f618104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 078/143] fix: report EXR files that cannot be written

---
 sources/plugins/data_io/EXR_IO.h  | 5 ++++-
 sources/plugins/data_io/slice.cpp | 2 +-
 sources/plugins/data_io/utia.cpp  | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..d4d1160 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -177,7 +177,10 @@ class t_EXR_IO
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				free(header.channels);
+				free(header.pixel_types);
+				free(header.requested_pixel_types);
+				return false;
 			}
 
 			free(header.channels);
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 4c36fa7..4bc9151 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -122,7 +122,7 @@ class BrdfSlice : public data {
 		{
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
-				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::ios_base::failure("unable to write file \"" + filename + "\"");
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 4fa89e5..4c940c2 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -136,8 +136,11 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		const bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!saved) {
+				throw std::ios_base::failure("unable to write file \"" + filename + "\"");
+			}
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
-- 
2.43.0


From 178d67b8d6eac46422b1e0e85c9d42061abb4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 079/143] fix: a new slice has undefined samples

---
 sources/plugins/data_io/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 4bc9151..444f87d 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -109,7 +109,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
-- 
2.43.0


From 4a6b2ddbdedc9997933f79e923841e55e1460926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 080/143] fix: evaluating a slice outside or at the bounds of
 its domain read other memory

---
 sources/plugins/data_io/slice.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 444f87d..794d5dc 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -14,6 +14,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
 
 #include "EXR_IO.h"
 
@@ -173,17 +174,17 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bound of the domain belongs to the last cell
+			const int i  = std::min<int>(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min<int>(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From 20d65ad22960efad74abf70da2bf43ad79a32b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 081/143] fix: a slice hid its range from the users of data

---
 sources/plugins/data_io/slice.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 794d5dc..db3b941 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -75,7 +75,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
-- 
2.43.0


From 2353ba64e30af7ec044bdc118ea7862bd98281b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 082/143] fix: EXR files were padded to a multiple of 256
 bytes, and missing channels left samples undefined

---
 sources/plugins/data_io/EXR_IO.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index d4d1160..c972d6b 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -43,12 +43,19 @@ class t_EXR_IO
 					_memory.resize(_m);
 				}
 
-				_memory[_n++] = (unsigned char)input.get();
+				const int _c = input.get();
+				if(_c != std::istream::traits_type::eof())
+					_memory[_n++] = (unsigned char)_c;
 			}
+			if(_n == 0) {
+				std::cerr << "<<ERROR>> Empty EXR stream" << std::endl;
+				return false;
+			}
+			_memory.resize(_n);
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err;
+			const char* _err = "unknown error";
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
@@ -95,6 +102,19 @@ class t_EXR_IO
 			/*! \todo  handle VS data using multi-channel */
 
 			/* Recopy the image into the provided pixel array */
+			bool _rgb[3] = {false, false, false};
+			for(int k=0; k<_image.num_channels; ++k) {
+				_rgb[0] = _rgb[0] || _header.channels[k].name[0] == 'R';
+				_rgb[1] = _rgb[1] || _header.channels[k].name[0] == 'G';
+				_rgb[2] = _rgb[2] || _header.channels[k].name[0] == 'B';
+			}
+			if(!_rgb[0] || !_rgb[1] || !_rgb[2]) {
+				std::cerr << "<<ERROR>> The EXR stream does not have RGB channels" << std::endl;
+				FreeEXRHeader(&_header);
+				FreeEXRImage(&_image);
+				return false;
+			}
+
 			W = _image.width;
 			H = _image.height;
 			pix = new FType[W*H*3];
@@ -172,7 +192,7 @@ class t_EXR_IO
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
 			}
 
-			const char* err;
+			const char* err = "unknown error";
 			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
-- 
2.43.0


From 0487908628d6ac63ca64dda6c909143a8fffcc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 083/143] fix: regular grids had undefined parametrizations,
 wrote outside of their samples and could not be loaded

---
 sources/plugins/data_interpolants/grid.cpp | 178 ++++++++++++---------
 1 file changed, 99 insertions(+), 79 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..68a9f47 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -18,12 +18,16 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <algorithm>
+#include <limits>
+#include <memory>
+#include <stdexcept>
 
 using namespace alta;
 
 static vec get_min(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res = vec::Zero(params::dimension(param));
    switch(param)
    {
       // 1D Parametrizations
@@ -71,8 +75,7 @@ static vec get_min(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         throw std::invalid_argument("parametrization not handled by \'data_grid\'");
    }
    return res;
 }
@@ -127,13 +130,67 @@ static vec get_max(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         throw std::invalid_argument("parametrization not handled by \'data_grid\'");
    }
    return res;
 }
 
 
+// Parametrization of the grid: the one of the arguments if they give it,
+// otherwise the one asked for.
+static parameters grid_parameters(const parameters& params,
+                                  const arguments& args) {
+
+   params::input  in_param  = params.input_parametrization();
+   params::output out_param = params.output_parametrization();
+   int nY = params.dimY();
+
+   if(args.is_defined("PARAM_IN")) {
+      in_param = params::parse_input(args["PARAM_IN"]);
+   } else if(args.is_defined("param")) {
+      in_param = params::parse_input(args["param"]);
+   }
+   if(in_param == params::UNKNOWN_INPUT) {
+      in_param = params::STARK_2D;
+   }
+
+   if(args.is_defined("PARAM_OUT")) {
+      out_param = params::parse_output(args["PARAM_OUT"]);
+   }
+   if(out_param != params::UNKNOWN_OUTPUT) {
+      nY = params::dimension(out_param);
+   }
+
+   return parameters(params::dimension(in_param), nY, in_param, out_param);
+}
+
+// Size of the grid, by default a 10^dimX grid.
+static std::vector<int> grid_size(const parameters& params,
+                                  const arguments& args) {
+
+   std::vector<int> size(params.dimX(), 10);
+   if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+      size = args.get_vec<int>("grid-size");
+   }
+
+   bool valid = size.size() == params.dimX();
+   for(int n : size) {
+      valid = valid && n > 0;
+   }
+   if(!valid) {
+      throw std::invalid_argument("invalid grid size for \'data_grid\'");
+   }
+   return size;
+}
+
+static int nb_cells(const std::vector<int>& size) {
+   int N = 1;
+   for(int n : size) {
+      N *= n;
+   }
+   return N;
+}
+
 /*! \ingroup datas
  *  \class data_grid
  *  \brief Data object storing BRDF values on a grid. Can perform linear
@@ -152,63 +209,18 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      BrdfGrid(const parameters& params, const std::vector<int>& size)
+        : vertical_segment(params, nb_cells(size)), _size(size)
       {
-         initialize(args);
-      }
-
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
-
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
-
-         if(args.is_defined("PARAM_IN")) {
-            in_param = params::parse_input(args["PARAM_IN"]);
-         } else if(args.is_defined("param")) {
-            in_param = params::parse_input(args["param"]);
-         }
-         nX = params::dimension(in_param);
-
-         if(args.is_defined("PARAM_OUT")) {
-            out_param = params::parse_output(args["PARAM_OUT"]);
-         }
-         nY = params::dimension(out_param);
-
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
-
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
-         }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+         _min = get_min(params.input_parametrization());
+         _max = get_max(params.input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(params.dimX() + params.dimY());
+         for(int n=0; n<data::_size; ++n) {
+            get_abscissa(n, x);
+            set(n, x);
          }
-
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
       }
 
       inline int get_index(const vec& x) const {
@@ -230,7 +242,9 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            // Outside of the domain, use the closest cell
+            const double c = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            k[i] = std::max(0.0, std::min(_size[i]-1.0, c));
          }
          return k;
       }
@@ -259,7 +273,7 @@ class BrdfGrid : public vertical_segment {
          // Evaluate the abscissa from the vector indices and
          // the min and max. The grid exactly map [0..1]
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / (_size[i]-1);
+            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / std::max(_size[i]-1, 1);
          }
       }
 
@@ -285,6 +299,9 @@ class BrdfGrid : public vertical_segment {
          }
 
          file.close();
+         if(!file) {
+            throw std::ios_base::failure("unable to write file \"" + filename + "\"");
+         }
       }
 
       void save_header(std::ostream& out) const {
@@ -344,7 +361,7 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
+            if(id+cid_s >= size())
                cid_s = 0;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
@@ -359,7 +376,8 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
-    return new BrdfGrid(size, params, args);
+    const auto p = grid_parameters(params, args);
+    return new BrdfGrid(p, grid_size(p, args));
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
@@ -367,19 +385,21 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
 {
     arguments header = arguments::parse_header(input);
 
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
-
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    const auto dim = header.get_pair<int>("DIM");
+    const auto p   = grid_parameters(parameters(dim.first, dim.second,
+                                                params::UNKNOWN_INPUT,
+                                                params::UNKNOWN_OUTPUT), header);
+    std::unique_ptr<BrdfGrid> result(new BrdfGrid(p, grid_size(p, header)));
+
+    std::unique_ptr<data> samples(load_data_from_text(input, header, arguments()));
+    if(samples->size() != result->size() ||
+       samples->parametrization().dimX() != p.dimX() ||
+       samples->parametrization().dimY() != p.dimY()) {
+       throw std::ios_base::failure("the samples do not fill the grid");
+    }
+    for(int i=0; i<result->size(); ++i) {
+       result->set(i, samples->get(i));
+    }
+
+    return result.release();
 }
-- 
2.43.0


From f4c6274851a959b9385e11f6b2c7c19f1ff18313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 084/143] fix: the samples of the RBF interpolant were
 undefined

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..78efa3c 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,13 +122,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id);
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From 8731a51b8793fc147053031f80b4cd68190b77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 085/143] fix: truncated ASTM files never ended or gave
 undefined samples

---
 sources/plugins/data_io/astm.cpp | 33 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..99e371d 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <cmath>
 #include <utility>
+#include <algorithm>
+#include <memory>
 
 namespace alta {
 
@@ -70,10 +72,8 @@ static arguments parse_header(std::istream& in) {
     arguments args;
     std::string key, line;
 
-    while(in.good()) {
-
-        // Get the current key
-        in >> key;
+    // Get the current key
+    while(in >> key) {
 
         // Extract the current line
         std::getline(in, line);
@@ -145,22 +145,28 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if(vars.empty()) {
+        throw std::ios_base::failure("no variables in the ASTM header");
+    }
     auto params = compute_parameters(vars);
 
     // Check data size from header
-    assert(header.is_defined("NUM_POINTS"));
-    int size = header.get_int("NUM_POINTS", 0);
+    int size = header.get_int("NUM_POINTS", -1);
+    if(size < 0) {
+        throw std::ios_base::failure("no number of points in the ASTM header");
+    }
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::shared_ptr<double> data(new double[size * n],
+                                 std::default_delete<double[]>());
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if(!std::getline(input, line)) {
+	        throw std::ios_base::failure("not enough points in the ASTM file");
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -169,11 +175,14 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            stream >> data.get()[i + j];
+        }
+        if(!stream) {
+            throw std::ios_base::failure("missing values in the ASTM file");
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, data);
 }
 
 }
-- 
2.43.0


From 9e6556708cae2a61ef83d4e2301f59ffde971bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:56 +0000
Subject: [PATCH 086/143] fix: the range of ISOTROPIC_TL_TV_PROJ_DPHI slices
 left half of the third input out

---
 sources/plugins/data_io/slice.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index db3b941..eb448e8 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -213,8 +213,7 @@ class BrdfSlice : public data {
 
 			// Fill the first two dimension unless the parametrization is a
 			// projected one then it will fill the three components.
-			if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-				parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
+			if(parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
 				res[0] = -0.5*M_PI ;
 				res[1] = -0.5*M_PI ;
 			} else if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-- 
2.43.0


From 4c15f78602ef0cc39fd27d183c088338095281c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 087/143] fix: loading text data with empty dimensions crashed

---
 sources/core/data_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 2277669..ba330d3 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -171,6 +171,10 @@ alta::data* alta::load_data_from_text(std::istream& input,
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
+  if(dim.first <= 0 || dim.second <= 0)
+  {
+    throw std::ios_base::failure("invalid dimensions");
+  }
   size_t row_count = dim.first + 3 * dim.second;
 
   min = args.get_vec("min", dim.first, -std::numeric_limits<double>::max()) ;
-- 
2.43.0


From f2a44bcd8dbc3d17bb84d0679e76fb857350c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 088/143] fix: masked metrics counted the masked entries and
 wrote past the matrices

---
 sources/core/metrics.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..7ae4cc1 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -61,8 +61,8 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    // Evaluate the input data at each position of data_x configuration
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
-      // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      // Entries for which the mask value is zero are skipped
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -91,7 +91,7 @@ void errors::evaluate(const data* inp,
    const bool has_mask = mask != nullptr;
 
    // Evaluate the input data at each position of data_x configuration
-   for(auto i=0; i<ref->size(); i++) {
+   for(auto i=0, row=0; i<ref->size(); i++) {
 
       // If the mask value is set to zero, skip the current entry
       if(has_mask && mask->get(i).tail(1)[0] == 0.0) {
@@ -117,8 +117,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,9 +128,10 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From 0fb967d9a92fcc2e2b6567f21d89d5bff4c87b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 089/143] fix: metrics of data whose parametrization is unknown

---
 sources/core/metrics.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 7ae4cc1..35f0bd9 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -101,21 +101,32 @@ void errors::evaluate(const data* inp,
       ref_xy = ref->get(i);
       ref_x  = ref_xy.head(nX);
 
-      params::convert(ref_x.data(),
-                      ref->parametrization().input_parametrization(),
-                      params::CARTESIAN,
-                      cart.data());
+      // Abscissas of an unknown parametrization are used as they are
+      const bool unknown =
+         ref->parametrization().input_parametrization() == params::UNKNOWN_INPUT ||
+         inp->parametrization().input_parametrization() == params::UNKNOWN_INPUT;
+
+      if(! unknown) {
+         params::convert(ref_x.data(),
+                         ref->parametrization().input_parametrization(),
+                         params::CARTESIAN,
+                         cart.data());
+      }
 
       // Check if the output configuration is below the hemisphere when
       // converted to cartesian coordinates. Note that this prevent from
       // converting BTDF data.
-      if(cart[2] >= 0.0 || cart[5] >= 0.0) {
-
-         // Convert to the query data `dat` parametrization
-         params::convert(cart.data(),
-                         params::CARTESIAN,
-                         inp->parametrization().input_parametrization(),
-                         dat_x.data());
+      if(unknown || cart[2] >= 0.0 || cart[5] >= 0.0) {
+
+         if(unknown) {
+            dat_x = ref_x;
+         } else {
+            // Convert to the query data `dat` parametrization
+            params::convert(cart.data(),
+                            params::CARTESIAN,
+                            inp->parametrization().input_parametrization(),
+                            dat_x.data());
+         }
 
          ref_y.row(row) = ref_xy.tail(nY);
          inp_y.row(row) = inp->value(dat_x);
-- 
2.43.0


From 8241b81720f4a754069562ca0dddba01011122cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 090/143] fix: fit2stat wrote the light weighted errors in
 place of the light and view weighted ones

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..1213030 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From dc2e53e36797b1e83ebf2167010e755cf25621eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 091/143] fix: cosine weighted errors of fit2stat swapped light
 and view and needed Cartesian data

---
 sources/softs/fit2stat/fit2stat.cpp | 65 ++++++++++++++++-------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 1213030..dca768d 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -324,20 +324,18 @@ void computeCosineFactorsFromData( ptr<data> const & data,
   cosine_theta_view.setZero( data->size() );
   cosine_theta_light.setZero( data->size() );
   
-  if( data->parametrization().input_parametrization() == params::CARTESIAN)
-  {
-    vec data_x = vec::Zero( data->parametrization().dimX() );
+  vec cart = vec::Zero( 6 );
 
-    for( unsigned int i=0; i < data->size(); i++)
-    {
-      data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
-    }
-  }
-  else
+  for( unsigned int i=0; i < data->size(); i++)
   {
-    NOT_IMPLEMENTED();
+    vec data_x = (data->get(i)).head( data->parametrization().dimX() );
+    params::convert( data_x.data(),
+                     data->parametrization().input_parametrization(),
+                     params::CARTESIAN, cart.data() );
+
+    // The view vector is packed first
+    cosine_theta_view[i]  = cart[2];
+    cosine_theta_light[i] = cart[5];
   }
 }
 
@@ -604,28 +602,32 @@ main(int argc, char* argv[])
   // t.reset();
 
   // Compute Weighted Norms by cosine factors
-  vec cosine_theta_view;
-  vec cosine_theta_light;
-  computeCosineFactorsFromData( converted_data, cosine_theta_light, cosine_theta_view );
-  vec cosine_light_view = cosine_theta_light.cwiseProduct( cosine_theta_view );
-  
-
+  // They are defined when the directions of the data are known.
+  const bool has_directions =
+    vs_data->parametrization().input_parametrization() != params::UNKNOWN_INPUT;
 
   Eigen::VectorXd w_cosine_light_mse;
   Eigen::VectorXd w_cosine_light_rmse;
+  Eigen::VectorXd w_cosine_light_view_mse;
+  Eigen::VectorXd w_cosine_light_view_rmse;
 
-  fastWeightedErrors( data_y, f_y, cosine_theta_light, w_cosine_light_mse, w_cosine_light_rmse);
+  if( has_directions )
+  {
+    vec cosine_theta_view;
+    vec cosine_theta_light;
+    computeCosineFactorsFromData( vs_data, cosine_theta_light, cosine_theta_view );
+    vec cosine_light_view = cosine_theta_light.cwiseProduct( cosine_theta_view );
 
-  std::cout << "<<INFO>> Weighted MSE by cosine of the light direction: " << w_cosine_light_mse << std::endl;
-  std::cout << "<<INFO>> Weighted Root-MSE by cosine of the light direction: " << w_cosine_light_rmse << std::endl;
+    fastWeightedErrors( data_y, f_y, cosine_theta_light, w_cosine_light_mse, w_cosine_light_rmse);
 
+    std::cout << "<<INFO>> Weighted MSE by cosine of the light direction: " << w_cosine_light_mse << std::endl;
+    std::cout << "<<INFO>> Weighted Root-MSE by cosine of the light direction: " << w_cosine_light_rmse << std::endl;
 
-  Eigen::VectorXd w_cosine_light_view_mse;
-  Eigen::VectorXd w_cosine_light_view_rmse;
-  fastWeightedErrors( data_y, f_y, cosine_light_view, w_cosine_light_view_mse, w_cosine_light_view_rmse);
+    fastWeightedErrors( data_y, f_y, cosine_light_view, w_cosine_light_view_mse, w_cosine_light_view_rmse);
 
-  std::cout << "<<INFO>> Weighted MSE by cos(theta_light) cos(theta_view): " << w_cosine_light_view_mse << std::endl;
-  std::cout << "<<INFO>> Weighted Root-MSE by cos(theta_light) cos(theta_view): " << w_cosine_light_view_rmse << std::endl;
+    std::cout << "<<INFO>> Weighted MSE by cos(theta_light) cos(theta_view): " << w_cosine_light_view_mse << std::endl;
+    std::cout << "<<INFO>> Weighted Root-MSE by cos(theta_light) cos(theta_view): " << w_cosine_light_view_rmse << std::endl;
+  }
 
 
 
@@ -665,10 +667,13 @@ main(int argc, char* argv[])
         fwriter << "LINF :" << LInf_norm << std::endl;
         fwriter << "MSE :" << mse << std::endl;
         fwriter << "RMSE :" << rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
+        if( has_directions )
+        {
+          fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
+          fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
+          fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+          fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
+        }
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From 664dfc392a1f14c4cadf00fef8be74abc358d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 092/143] fix: fit2stat failed for functions of unknown
 parametrization

---
 sources/softs/fit2stat/fit2stat.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dca768d..6c77948 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -283,10 +283,18 @@ bool convertDataToFunctionParam(ptr<data> const & data,
         data_x = dat.head( data->parametrization().dimX() );
         data_y = dat.tail( data->parametrization().dimY() );
         
-        params::convert(&data_x[0],
-                        data->parametrization().input_parametrization(),
-                        f->parametrization().input_parametrization(),
-                        &new_data_x[0]);
+        // A function of unknown parametrization uses the abscissas as they are
+        if( f->parametrization().input_parametrization() == params::UNKNOWN_INPUT )
+        {
+          new_data_x = data_x.head( f->parametrization().dimX() );
+        }
+        else
+        {
+          params::convert(&data_x[0],
+                          data->parametrization().input_parametrization(),
+                          f->parametrization().input_parametrization(),
+                          &new_data_x[0]);
+        }
 
         new_data.head( f->parametrization().dimX() ) = new_data_x;
         new_data.tail( f->parametrization().dimY() ) = data_y;
-- 
2.43.0


From 6310c6d590438cbffafd90626794c1dd6d73abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 093/143] fix: unsupported operations terminated the program
 instead of raising an exception

---
 sources/core/common.h             | 5 +++--
 sources/core/params.cpp           | 5 +++--
 sources/core/plugins_manager.cpp  | 2 +-
 sources/core/vertical_segment.cpp | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sources/core/common.h b/sources/core/common.h
index af8c87e..00ffe11 100644
--- a/sources/core/common.h
+++ b/sources/core/common.h
@@ -22,6 +22,7 @@
 #ifdef _MSC_VER
 #define _USE_MATH_DEFINES
 #include <cmath>
+#include <stdexcept>
 #include <math.h>
 #else
 #include <cmath>
@@ -118,12 +119,12 @@ static bool close_to(const T a, const T b, const T epsilon = 1E-7)
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __FUNCDNAME__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #else
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __PRETTY_FUNCTION__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #endif
 
 // Mathematical definition not provided on the Window plateform
diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 115d209..d17ddda 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -12,6 +12,7 @@
 #include "params.h"
 #include "common.h"
 #include <cassert>
+#include <stdexcept>
 
 using namespace alta;
 
@@ -393,7 +394,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, " << get_name(intype) << " " << __FILE__ << ":" << __LINE__ << std::endl;
-			throw;
+			throw std::invalid_argument("transformation not implemented");
 			break;
 	}
 
@@ -719,7 +720,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, n°" << outtype << ", " << __FILE__ << ":" << __LINE__ << std::endl;
-			assert(false);
+			throw std::invalid_argument("transformation not implemented");
 			break;
 	}
 }
diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 2124b04..a6abc01 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -618,7 +618,7 @@ void plugins_manager::check_compatibility( ptr<data>& d,
 
   if(f->parametrization().dimY() != d->parametrization().dimY())
   {
-    abort();
+    throw std::invalid_argument("the function and the data have different output dimensions");
     // FIXME: Used to be this:
     // f->setDimY(d->parametrization().dimY());
   }
diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..9cede8c 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -158,7 +158,7 @@ void vertical_segment::set(int i, const vec& x)
        row.head(x.size()) = x;
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
-      throw;
+      throw std::invalid_argument("incorrect element");
    }
 }
 
-- 
2.43.0


From b55bfd47cc8588a6827d5e006d0499d35a1d9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 094/143] fix: commands aborted on errors instead of reporting
 them

---
 sources/softs/brdf2brdf/main.cpp        | 6 ++++++
 sources/softs/brdf2data/main.cpp        | 6 ++++++
 sources/softs/brdf2gnuplot/main.cpp     | 6 ++++++
 sources/softs/data2brdf/main.cpp        | 6 ++++++
 sources/softs/data2data/main.cpp        | 6 ++++++
 sources/softs/data2moments/main.cpp     | 6 ++++++
 sources/softs/data2stats/data2stats.cpp | 6 ++++++
 sources/softs/fit2stat/fit2stat.cpp     | 6 ++++++
 8 files changed, 48 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..efb6de6 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -33,6 +33,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 	
@@ -68,3 +69,8 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..cd563ac 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -35,6 +35,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
    arguments args(argc, argv) ;
 
@@ -129,3 +130,8 @@ int main(int argc, char** argv)
 
    return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..357c6ba 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -28,6 +28,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv);
 
@@ -223,3 +224,8 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..6675d59 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -65,6 +65,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
     arguments args(argc, argv) ;
 
@@ -178,3 +179,8 @@ int main(int argc, char** argv)
 
     return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..ed66841 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -288,6 +288,7 @@ static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -412,3 +413,8 @@ int main(int argc, char** argv)
 
 	return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..87dea23 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -43,6 +43,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -354,3 +355,8 @@ int main(int argc, char** argv)
 		return 1;
 	}
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..41d18d1 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -468,6 +468,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
  *  regarding the distance to another data file.
  */
 int main(int argc, char* argv[])
+try
 {
 
    arguments args(argc, argv) ;
@@ -586,3 +587,8 @@ int main(int argc, char* argv[])
 
    return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 6c77948..5a9caf6 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -433,6 +433,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
 
 int 
 main(int argc, char* argv[])
+try
 {
 
   arguments args(argc, argv) ;
@@ -710,3 +711,8 @@ main(int argc, char* argv[])
 
   return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
-- 
2.43.0


From 35867c339255ec39f641b65a48df07a16559dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 095/143] fix: failures to write functions and data were not
 reported

---
 sources/core/data.cpp            | 2 ++
 sources/core/function.cpp        | 8 +++++++-
 sources/softs/data2data/main.cpp | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index a986278..838238d 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -26,6 +26,8 @@ void data::save(const std::string& filename) const
         alta::save_data_as_text(file, *this);
 
     file.close();
+    if(!file)
+        throw std::ios_base::failure("unable to write file \"" + filename + "\"");
 }
 
 bool data::equals(const data& data, double epsilon)
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 6478cc8..8abaaa8 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -59,7 +59,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	std::ofstream file(filename.c_str());
 	if(!file.is_open())
 	{
-		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
+		throw std::ios_base::failure("unable to open file \"" + filename + "\" for writing");
 	}
 
 	// If the export is the alta format, use the maximum precision formatting
@@ -123,6 +123,12 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	file.close();
+	if(!file)
+	{
+		throw std::ios_base::failure("unable to write file \"" + filename + "\"");
+	}
 }
 		
 //! \brief save the header of the output function file. The header should
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index ed66841..67280ba 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -402,9 +402,10 @@ try
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
           out.open(args["output"]);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
-- 
2.43.0


From 1685b4a2a84d4b5798250ab3b1741148f8a6ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 096/143] fix: data2data crashed when its input could not be
 loaded

---
 sources/softs/data2data/main.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 67280ba..51b3825 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -360,7 +360,8 @@ try
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl;
+		return EXIT_FAILURE;
 	}
 
 
@@ -376,12 +377,7 @@ try
                                               args) ;
 	if(!d_out)
 	{
-		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
-	}
-
-	if(!d_in || !d_out)
-	{
-		std::cerr << "<<ERROR>> Cannot import or export data" << std::endl ;
+		std::cerr << "<<ERROR>> Cannot export data" << std::endl ;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 62c87420af98777b2b49b09e7b78739b7550107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 097/143] fix: data2data ignored the --param option when the
 name was not known

---
 sources/softs/data2data/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 51b3825..4971807 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -114,6 +114,13 @@ static parameters compute_parameters(const data& d_in,
 {
     params::input param = params::parse_input(args["param"]);
 
+    if(param == params::UNKNOWN_INPUT
+       && args.is_defined("param") && args["param"] != "UNKNOWN_INPUT")
+    {
+        std::cerr << "<<ERROR>> unknown parametrization \"" << args["param"] << "\"" << std::endl;
+        exit(EXIT_FAILURE);
+    }
+
     if(param == params::UNKNOWN_INPUT
        && d_in.parametrization().input_parametrization() != params::UNKNOWN_INPUT)
     {
-- 
2.43.0


From c30573d7baaa798c38394be88e488652864153cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 098/143] fix: data2data wrote null samples for the
 configurations it discards and copied samples into grids by index

---
 sources/softs/data2data/main.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 4971807..36f66c4 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -106,6 +106,7 @@
 #include <limits>
 #include <cstdlib>
 #include <cmath>
+#include <typeinfo>
 
 using namespace alta;
 
@@ -143,11 +144,18 @@ static parameters compute_parameters(const data& d_in,
                             out_param);
 }
 
+// Whether D holds samples at any abscissas.  Data objects of the plugins have
+// abscissas of their own, even those that store vertical segments.
+static bool is_vertical_segment(const data& d)
+{
+    return typeid(d) == typeid(vertical_segment);
+}
+
 // Convert D_IN to D_OUT without doing any interpolation.  That is, call the
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
 // in the definition domain.
-static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
+static void convert_vertical_segment(ptr<data> d_in, ptr<data>& d_out,
                                      bool verbose = false,
                                      bool all_values = false)
 {
@@ -165,6 +173,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     save_timer.start();
 
     unsigned int nb_invalid_configs = 0;
+    std::vector<std::pair<int, vec> > rows;
     vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
     {
@@ -192,7 +201,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                                 d_out->parametrization().dimY(),
                                 &temp[d_out->parametrization().dimX()]);
                 // SAVING THE INVALID CONFIGURATION
-                d_out->set(i, temp);
+                rows.push_back(std::make_pair(i, temp));
             }
 
         }
@@ -204,9 +213,16 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                             d_out->parametrization().output_parametrization(),
                             d_out->parametrization().dimY(),
                             &temp[d_out->parametrization().dimX()]);
-            d_out->set(i, temp);
+            rows.push_back(std::make_pair(i, temp));
         }
     }
+
+    // Leave no room for the configurations that are not exported
+    const bool compact = is_vertical_segment(*d_out);
+    if (compact)
+        d_out = ptr<data>(new vertical_segment(d_out->parametrization(), rows.size()));
+    for(size_t i=0; i<rows.size(); ++i)
+        d_out->set(compact ? i : rows[i].first, rows[i].second);
     save_timer.stop();
 
     if( nb_invalid_configs > 0 )
@@ -238,7 +254,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
@@ -283,9 +299,9 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 }
 
 // Convert D_IN to D_OUT according to ARGS.
-static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
+static void convert(ptr<data> d_in, ptr<data>& d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	if(is_vertical_segment(*d_out) || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
-- 
2.43.0


From 92078f86d155cd9ce4c59a814ade06b321382202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 099/143] fix: data2data aborted when its input cannot be
 interpolated

---
 sources/softs/data2data/main.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 36f66c4..9ccde19 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -106,6 +106,7 @@
 #include <limits>
 #include <cstdlib>
 #include <cmath>
+#include <exception>
 #include <typeinfo>
 
 using namespace alta;
@@ -254,9 +255,12 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
+    // Exceptions cannot leave the parallel region
+    std::exception_ptr error;
+
 #pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
-		{
+		try {
         vec temp(d_in->parametrization().dimX());
         vec cart(6);
         vec y(d_in->parametrization().dimY());
@@ -290,8 +294,15 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
                         &x[d_out->parametrization().dimX()]);
 
         d_out->set(i, x);
+		} catch(...) {
+#pragma omp critical
+        error = std::current_exception();
 		}
 
+    if(error) {
+        std::rethrow_exception(error);
+    }
+
     if(stats_incorrect > 0) {
         std::cerr << "<<DEBUG>> Number of incorrect configuration: "
                   << stats_incorrect << " / " << d_out->size() << std::endl;
-- 
2.43.0


From fbeaf90a5d2f201d0352423181825199964d2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 100/143] fix: data2brdf crashed when its data could not be
 loaded

---
 sources/softs/data2brdf/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index 6675d59..6577fd2 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -122,11 +122,17 @@ try
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
+    if(!d)
+    {
+        std::cerr << "<<ERROR>> no data object correctly defined" << std::endl;
+        return 1;
+    }
+
     ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
 
-    if(!f || !d)
+    if(!f)
     {
-        std::cerr << "<<ERROR>> no function or data object correctly defined" << std::endl;
+        std::cerr << "<<ERROR>> no function correctly defined" << std::endl;
         return 1;
     }
 
-- 
2.43.0


From 57815066929dfbf25091703fc0b0a1a3e1ab90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 101/143] fix: brdf2brdf crashed when its input could not be
 loaded

---
 sources/softs/brdf2brdf/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index efb6de6..4a984fb 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,6 +63,11 @@ try
 
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot load the function file" << std::endl;
+        return 1;
+    }
 
     // Save it
     f->save(args["output"], args) ;
-- 
2.43.0


From f57817f68f35d3613284d0bc9939752e17cc4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 102/143] fix: brdf2data succeeded without data to export or
 with a function of other dimensions

---
 sources/softs/brdf2data/main.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index cd563ac..aa140b4 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -91,6 +91,19 @@ try
       return 1;
    }
 
+   if(d && f->parametrization().dimY() != d->parametrization().dimY())
+   {
+      std::cerr << "<<ERROR>> the function and the data have different output dimensions" << std::endl;
+      return 1;
+   }
+
+   if(d && f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+      && f->parametrization().dimX() != d->parametrization().dimX())
+   {
+      std::cerr << "<<ERROR>> the function and the data have different input dimensions" << std::endl;
+      return 1;
+   }
+
    if(d && f != NULL)
    {
       const bool output_dif = args.is_defined("export-diff");
@@ -126,6 +139,7 @@ try
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1;
    }
 
    return 0 ;
-- 
2.43.0


From 5bb52d5f196e7a9015651342027ad6bd6d11f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 103/143] fix: brdf2gnuplot reported success when it could not
 write its plot

---
 sources/softs/brdf2gnuplot/main.cpp | 34 +++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 357c6ba..068b325 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -89,6 +89,19 @@ try
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(!d)
+		{
+			std::cerr << "<<ERROR>> cannot load the data file" << std::endl;
+			return 1;
+		}
+		if(f->parametrization().dimY() != d->parametrization().dimY()
+		   || (f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+		       && f->parametrization().dimX() != d->parametrization().dimX()))
+		{
+			std::cerr << "<<ERROR>> the function and the data have different dimensions" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -175,9 +188,20 @@ try
 		}
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else if(args.is_defined("polar-plot"))
 	{
+		if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+		{
+			std::cerr << "<<ERROR>> a polar plot requires a function of known parametrization" << std::endl;
+			return 1;
+		}
+
 		// Create output file
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -220,6 +244,16 @@ try
 			file << std::endl;
 		}
 			file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
+	}
+	else
+	{
+		std::cerr << "<<ERROR>> no plot is defined: use --data, --data-file or --polar-plot" << std::endl;
+		return 1;
 	}
 
 	return 0 ;
-- 
2.43.0


From 1e784aaf44f9fc065b56b3dc817adea5b5fda05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 104/143] fix: data2moments refused interpolating data that
 stores vertical segments

---
 sources/softs/data2moments/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 87dea23..2ee1666 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -88,7 +88,7 @@ try
 	}
 	CATCH_FILE_IO_ERROR(args["input"]);
 
-	if(dynamic_pointer_cast<vertical_segment>(d)) {
+	if(args["data"].empty() || args["data"] == "vertical_segment") {
 		std::cerr << "<<ERROR>> this data object is not interpolant." << std::endl;
 		return 1;
 	}
-- 
2.43.0


From 2466cce9bbb9b167d91a542ea69972438f00d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 105/143] fix: data2moments read out of bounds for invalid
 options and did not report write errors

---
 sources/softs/data2moments/main.cpp | 30 ++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 2ee1666..2911d20 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -93,9 +93,6 @@ try
 		return 1;
 	}
 
-	// Create output file
-	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
-
 	if(d)
 	{
 		// Data parametrization
@@ -141,7 +138,16 @@ try
 		if(args.is_defined("samples"))
 		{	
 			samples = args.get_vec<int>("samples");
-			assert(samples.size() == nX);
+			bool valid = int(samples.size()) == nX;
+			for(size_t i=0; i<samples.size(); ++i)
+			{
+				valid = valid && samples[i] > 0;
+			}
+			if(!valid)
+			{
+				std::cerr << "<<ERROR>> --samples requires one positive number per input dimension" << std::endl;
+				return 1;
+			}
 		}
 		else
 		{
@@ -155,7 +161,6 @@ try
 		if(args.is_defined("dim"))
 		{
 			dim = args.get_vec<int>("dim");
-			assert(dim.size() == 2);
 		}
 		else
 		{
@@ -163,7 +168,11 @@ try
 			dim.push_back(0);
 			dim.push_back(1);
 		}
-
+		if(dim.size() != 2 || dim[0] < 0 || dim[0] >= nX || dim[1] < 0 || dim[1] >= nX)
+		{
+			std::cerr << "<<ERROR>> the moments require two input dimensions of the data" << std::endl;
+			return 1;
+		}
 
 		// Get the minimum element of the dataset
 		vec _d_min = d->get(0);
@@ -327,6 +336,9 @@ try
 		std::cout << "<<RESULT>> moment yyyy: " << m_yyyy << std::endl;
 #endif
 
+		// Create output file
+		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+
 		file << "\\mu_0 = " << m_0 << std::endl;
 		file << "\\mu_x = "  << m_x << std::endl;
 		file << "\\mu_y = "  << m_y << std::endl;
@@ -346,11 +358,15 @@ try
 #endif
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 		return 0 ;
 	}
 	else
 	{
-		file.close();
 		std::cerr << "<<ERROR>> unable to load file \"" << args["input"] << "\"" << std::endl ;
 		return 1;
 	}
-- 
2.43.0


From da93be7df62023b2690b1b2694c7b5e74e8d0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 106/143] fix: data2stats and fit2stat did not report write
 errors

---
 sources/softs/data2stats/data2stats.cpp | 7 +++++++
 sources/softs/fit2stat/fit2stat.cpp     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 41d18d1..946081a 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -577,6 +577,13 @@ try
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
 
+            fwriter.close();
+            if(!fwriter) {
+               std::cerr << "<<ERROR>> Could not save metrics to "
+                         << output_filename << std::endl;
+               return EXIT_FAILURE;
+            }
+
          } else {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 5a9caf6..0f9d5e0 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -684,6 +684,13 @@ try
           fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         }
         fwriter << std::endl;
+
+            fwriter.close();
+            if(!fwriter) {
+               std::cerr << "<<ERROR>> Could not save metrics to "
+                         << output_filename << std::endl;
+               return EXIT_FAILURE;
+            }
       }
       else
       {
-- 
2.43.0


From b59fccbda10123fbb91a1d99d80962b51299b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 107/143] fix: data2stats and fit2stat computed metrics of data
 of different or empty dimensions

---
 sources/softs/data2stats/data2stats.cpp |  6 ++++++
 sources/softs/fit2stat/fit2stat.cpp     | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 946081a..ee218c3 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -534,6 +534,12 @@ try
                 << "\'"  << std::endl;
       return EXIT_FAILURE;
    }
+   if(ref->size() == 0
+      || ref->parametrization().dimY() != input->parametrization().dimY()) {
+      std::cerr << "<<ERROR>> The reference data is empty, or the data have different dimensions"
+                << std::endl;
+      return EXIT_FAILURE;
+   }
    std::cout << "<<INFO>> Starting to compute statistics ... " << std::endl;
 
 
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 0f9d5e0..62e7894 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -489,6 +489,12 @@ try
   }
 
 
+  if(!vs_data || vs_data->size() == 0)
+  {
+    std::cerr << "<<ERROR>> Could not load data file \'" << args["input"] << "\'" << std::endl;
+    return EXIT_FAILURE;
+  }
+
   std::cout << "<<INFO>> DATA LOADED in " << t << std::endl;
   t.reset();
   std::cout << "<<INFO>> DATA Y dimension :" << vs_data->parametrization().dimY() << std::endl;
@@ -505,6 +511,14 @@ try
   std::cout << "<<INFO>> BRDF File Loaded. Starting to compute statistics ... " << std::endl;
 
 
+  if(brdf->parametrization().dimY() != vs_data->parametrization().dimY()
+     || (brdf->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+         && brdf->parametrization().dimX() != vs_data->parametrization().dimX()))
+  {
+    std::cerr << "<<ERROR>> The BRDF and the data have different dimensions" << std::endl;
+    return EXIT_FAILURE;
+  }
+
   vertical_segment*   conv_vs = NULL;
   bool conversion_necessary = true;
   std::cout << "<<INFO>> Converting data to function parametrization if needed" << std::endl;
-- 
2.43.0


From 17ebfb8957808fe18eb22287657ef6c6a13b42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 108/143] fix: grids in the RUSIN_TH_TD_PD parametrization were
 not evaluated at negative azimuths

---
 sources/plugins/data_interpolants/grid.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 68a9f47..7543e6a 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -328,8 +328,16 @@ class BrdfGrid : public vertical_segment {
          vertical_segment::set(id, x);
       }
 
-      vec value(const vec& x) const
+      vec value(const vec& config) const
       {
+         // The grid covers a whole turn from zero, while conversions provide
+         // differential azimuths around zero.
+         vec x = config;
+         if(parametrization().input_parametrization() == params::RUSIN_TH_TD_PD
+            && x[2] < 0.0) {
+            x[2] += 2.0*M_PI;
+         }
+
          // Get the base index
          const auto k = get_indices(x);
          const int id = get_index(k);
-- 
2.43.0


From c960c0594d6af98156e1c1b975ec17bd2c9a425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 109/143] fix: function files were loaded as data

---
 sources/core/plugins_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index a6abc01..80bb6c4 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -508,7 +508,10 @@ ptr<data> plugins_manager::load_data(const std::string& type, std::istream& inpu
                       << std::endl;
         }
 
-        if (header["FORMAT"] == "binary") {
+        if (header["TYPE"] == "FUNC") {
+            std::cerr << "<<ERROR>> this is a function file, not a data file"
+                      << std::endl;
+        } else if (header["FORMAT"] == "binary") {
             result = ptr<data>(load_data_from_binary(input, header));
         } else {
             result = ptr<data>(load_data_from_text(input, header, args));
-- 
2.43.0


From ffc40aa8f1ec4abe16be179d4cc42a16eab5e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 110/143] fix: brdf2gnuplot failed on empty data and discarded
 its output for data of unknown parametrization

---
 sources/softs/brdf2gnuplot/main.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 068b325..2d38bd9 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -102,6 +102,13 @@ try
 			return 1;
 		}
 
+		if(f->parametrization().input_parametrization() != params::UNKNOWN_INPUT
+		   && d->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+		{
+			std::cerr << "<<ERROR>> the parametrization of the data is unknown" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -109,10 +116,13 @@ try
 
 		// Print the distance to the data to check if it correspond to the value
 		// computed prior.
-		double L2   = f->L2_distance(d);
-		double Linf = f->Linf_distance(d);
-		std::cout << "<<INFO>> L2   distance to data = " << L2   << std::endl;
-		std::cout << "<<INFO>> Linf distance to data = " << Linf << std::endl;
+		if(d->size() > 0)
+		{
+			double L2   = f->L2_distance(d);
+			double Linf = f->Linf_distance(d);
+			std::cout << "<<INFO>> L2   distance to data = " << L2   << std::endl;
+			std::cout << "<<INFO>> Linf distance to data = " << Linf << std::endl;
+		}
 
 		// Check the kind of plot to do
 		bool plot_error = false ;
-- 
2.43.0


From de52dd6ae4937c0f7f1c942e6ad4d557443492e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 111/143] fix: setting elements outside of a vector from Python
 corrupted memory

---
 sources/python/wrapper_vec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..66ec48c 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -25,6 +25,7 @@ namespace py = pybind11;
 /* Specific function call to set a vector's element
  */
 static void vec_set_item(vec& x, int i, double a) {
+	if (i < 0 || i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
-- 
2.43.0


From 9c9702d5c0802571d329caabd04bcc0eeb97d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 112/143] fix: adding vectors of different sizes from Python
 read out of bounds

---
 sources/python/wrapper_vec.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 66ec48c..fc2c843 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -31,10 +31,15 @@ static void vec_set_item(vec& x, int i, double a) {
 
 /* Operators on vec
  */
+static void vec_check_sizes(const vec& a, const vec& b) {
+   if (a.size() != b.size()) throw py::value_error("vectors of different sizes");
+}
 static vec vec_add(const vec& a, const vec& b) {
+   vec_check_sizes(a, b);
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   vec_check_sizes(a, b);
    return a - b;
 }
 
-- 
2.43.0


From 0cbe18520786e5ee97a0c7c395775ce08917d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 113/143] fix: accessing samples outside of the data from
 Python read and wrote out of bounds

---
 sources/python/wrapper_data.h | 37 ++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..8bc4490 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -44,17 +44,44 @@ static ptr<data> get_data(const std::string& plugin_name, size_t size,
   return plugins_manager::get_data(plugin_name, size, params);
 }
 
+/* Access to the samples, the interpreter has to survive any index and vector.
+ */
+static void data_check_index(const data& d, int i)
+{
+    if (i < 0 || i >= d.size()) throw py::index_error();
+}
+
+static vec data_get(const ptr<data>& d, int i)
+{
+    data_check_index(*d, i);
+    return d->get(i);
+}
+
+static void data_set(const ptr<data>& d, int i, const vec& x)
+{
+    data_check_index(*d, i);
+    d->set(i, x);
+}
+
+static vec data_value(const ptr<data>& d, const vec& x)
+{
+    const parameters& p = d->parametrization();
+    if (x.size() != p.dimX() && x.size() != p.dimX() + p.dimY())
+        throw py::value_error("vector of the wrong size");
+    return d->value(x);
+}
+
 /* Register the `data` class to python
  */
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", data_get)
+      .def("__setitem__", data_set)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
-      .def("value", &data::value)
+      .def("get",   data_get)
+      .def("set",   data_set)
+      .def("value", data_value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
    m.def("get_data",  get_data);
-- 
2.43.0


From aeb447c79bd8adcc5ee089d2582a59bf35975dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 114/143] fix: arguments could not be passed to save and
 get_data from Python

---
 sources/python/alta.cpp       | 7 ++++++-
 sources/python/wrapper_data.h | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..9430049 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -191,6 +191,11 @@ static void save_function_without_args(const ptr<function>& f, const std::string
    f->save(filename, args);
 }
 
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
+
 /* Fitter interface to allow to launch fit with and without providing an
  * arguments object.
  */
@@ -314,7 +319,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index 8bc4490..84daef4 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -33,7 +33,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From 6b06a163801d690a13787b0d80e1b5dd04e4f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 115/143] fix: fitting from Python without arguments used
 uninitialized parameters

---
 sources/python/alta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 9430049..31af7ce 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -203,6 +203,7 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
    arguments args;
+   _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
 
-- 
2.43.0


From c2135f6f3acbcb38e4161430c2d73841612e1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 116/143] fix: loading a function from Python did not report
 errors

---
 sources/python/alta.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 31af7ce..47cd14e 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -82,15 +82,16 @@ static void load_from_file_with_args(const ptr<function>& func,
    std::ifstream file;
    file.open(filename.c_str()) ;
    if(!file.is_open()) {
-      std::cerr << "<<ERROR>> unable to open file \"" << filename << "\"" << std::endl ;
-      return;
+      throw std::runtime_error("unable to open file \"" + filename + "\"");
    }
 
    // Parse the associated header
    arguments header = arguments::parse_header(file);
 
    // Load the function stream
-   func->load(file);
+   if(!func->load(file) || file.fail()) {
+      throw std::runtime_error("unable to load the function from \"" + filename + "\"");
+   }
 }
 static void load_from_file(const ptr<function>& func, const std::string& filename) {
 
-- 
2.43.0


From 013cbde2e8c2c05d494253c2b1a9c53ac9a6b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 117/143] fix: evaluating a function on a vector of the wrong
 size from Python read out of bounds

---
 sources/python/alta.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 47cd14e..19f299d 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -172,6 +172,15 @@ static void set_function_params(ptr<function>& f, const vec& v) {
 	// }
 }
 
+/* Evaluate a function, the input has to match its dimension.
+ */
+static vec get_function_value(const ptr<function>& f, const vec& x) {
+	if(x.size() != f->parametrization().dimX()) {
+		throw py::value_error("vector of the wrong size");
+	}
+	return f->value(x);
+}
+
 static vec get_function_params(ptr<function>& f) {
 	// Try to set the parameter as a nonlinear function
 	ptr<nonlinear_function> nf = dynamic_pointer_cast<nonlinear_function>(f);
@@ -318,7 +327,7 @@ inline void register_function(py::module& m) {
 		.def("__add__",  &add_function)
 		.def("__mul__",  &mult_function)
 		.def("__rmul__", &mult_function)
-		.def("value",    &function::value)
+		.def("value",    &get_function_value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
 		.def("save",     &save_function_with_args)
-- 
2.43.0


From e220097c86120532205f5e9a62f5b39e91e16b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 118/143] fix: combining functions of different outputs from
 Python aborted

---
 sources/python/alta.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 19f299d..f2f31f5 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -111,6 +111,13 @@ static ptr<function> add_function(const ptr<function>& f1, const ptr<function>&
 	ptr<nonlinear_function> nf2 = dynamic_pointer_cast<nonlinear_function>(f2);
 
 	if(nf1 && nf2) {
+    if(nf1->parametrization().dimY() != nf2->parametrization().dimY()
+       || (nf1->parametrization().output_parametrization() != params::UNKNOWN_OUTPUT
+           && nf1->parametrization().output_parametrization() != nf2->parametrization().output_parametrization())) {
+        std::cerr << "<<ERROR>> The input functions have different outputs" << std::endl;
+        return ptr<function>(NULL);
+    }
+
     std::vector<ptr<nonlinear_function> > functions;
     functions.push_back(nf1);
     functions.push_back(nf2);
@@ -137,6 +144,11 @@ static ptr<function> mult_function(const ptr<function>& f1, const ptr<function>&
 		return ptr<function>(NULL);
 	}
 
+	if(nf1->parametrization().dimY() != nf2->parametrization().dimY()) {
+		std::cerr << "<<ERROR>> The input functions have different output dimensions" << std::endl;
+		return ptr<function>(NULL);
+	}
+
 	product_function* pf = new product_function(nf1, nf2);
 	return ptr<function>(pf);
 }
-- 
2.43.0


From 67a86670bfa8f4ae7c01852ef5e090f09814d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 119/143] fix: data2data from Python overflowed when the
 dimensions and parametrizations did not match

---
 sources/python/alta.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index f2f31f5..46d16e7 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -243,6 +243,14 @@ static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
  */
 static ptr<data> data2data(const data* d_in, const parameters& target)
 {
+    if (target.dimY() != d_in->parametrization().dimY()
+        || target.input_parametrization() == params::UNKNOWN_INPUT
+        || target.dimX() != params::dimension(target.input_parametrization())
+        || d_in->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+    {
+        throw py::value_error("cannot convert the data to this parametrization");
+    }
+
     auto delete_array = [](double* array)
     {
         delete[] array;
-- 
2.43.0


From d30317e525fd1df55057a4b8360622efcba05331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 120/143] fix: brdf2data from Python read out of bounds when
 the dimensions did not match

---
 sources/python/alta.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 46d16e7..d8f569f 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -303,6 +303,14 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 		return;
 	}
 
+	if(f->parametrization().dimY() != d->parametrization().dimY()) {
+		throw py::value_error("the function and the data have different output dimensions");
+	}
+	if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+	   && f->parametrization().dimX() != d->parametrization().dimX()) {
+		throw py::value_error("the function and the data have different input dimensions");
+	}
+
 	vec temp(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
 		// Copy the input vector
-- 
2.43.0


From c8e4a95c086c9a27ee61acf7bc325b1588812658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 121/143] fix: data2stats from Python read out of bounds when
 the dimensions did not match

---
 sources/python/alta.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index d8f569f..24474d1 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -338,6 +338,15 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 /* Compute distance metric between 'in' and 'ref'.
  */
 static py::dict data2stats(const ptr<data>& in, const ptr<data>& ref) {
+   if(in->parametrization().dimY() != ref->parametrization().dimY()) {
+      throw py::value_error("the data have different output dimensions");
+   }
+   if((in->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+       || ref->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+      && in->parametrization().dimX() != ref->parametrization().dimX()) {
+      throw py::value_error("the data have different input dimensions");
+   }
+
    // Compute the metrics
    errors::metrics res;
    errors::compute(in.get(), ref.get(), nullptr, res);
-- 
2.43.0


From 65d7f4f0947376cdc503b243000f87613382b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 122/143] fix: passing None to the Python functions crashed the
 interpreter

---
 sources/python/alta.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 24474d1..60539cf 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -380,8 +380,8 @@ inline void register_function(py::module& m) {
 
 inline void register_fitter(py::module& m) {
 	py::class_<fitter, ptr<fitter>>(m, "fitter")
-		.def("fit_data", &fit_data_with_args)
-                .def("fit_data", &fit_data_without_args);
+		.def("fit_data", &fit_data_with_args, py::arg("data").none(false), py::arg("function").none(false), py::arg("args"))
+		.def("fit_data", &fit_data_without_args, py::arg("data").none(false), py::arg("function").none(false));
 	m.def("get_fitter",  plugins_manager::get_fitter);
 }
 
@@ -449,7 +449,7 @@ PYBIND11_MODULE(alta, m) {
     register_fitter(m);
 
     /* register `softs` */
-    m.def("data2data",  data2data);
-    m.def("data2stats", data2stats);
-    m.def("brdf2data",  brdf2data);
+    m.def("data2data",  data2data, py::arg("input").none(false), py::arg("target"));
+    m.def("data2stats", data2stats, py::arg("input").none(false), py::arg("reference").none(false));
+    m.def("brdf2data",  brdf2data, py::arg("function").none(false), py::arg("data").none(false));
 }
-- 
2.43.0


From 2846c1327533caf273ab177cb78dc4badd53f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 123/143] fix: the diffuse function gave an uninitialized
 parameter

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 827c2a5be5d3a08e0500c3fca91747cc9d8d50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 124/143] fix: evaluating or saving a rational function without
 coefficients crashed

---
 sources/core/rational_function.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index a3e03cf..98cc0ad 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -610,6 +610,8 @@ vec rational_function::value(const vec& x) const
 
 	for(int k=0; k<_parameters.dimY(); ++k)
 	{
+		// The function has not been loaded nor fitted yet
+		if(rs[k] == NULL) { throw std::logic_error("rational function without coefficients"); }
 		res[k] = rs[k]->value(x)[0] ;
 	}
 	return res ;
@@ -687,6 +689,9 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
 
 	bool is_alta = !args.is_defined("export") || args["export"] == "alta";
 	if(is_alta) {
+		if(_min.size() != _parameters.dimX() || _max.size() != _parameters.dimX()) {
+			throw std::logic_error("rational function without a domain");
+		}
 		out << "#FUNC rational_function" << std::endl;
 		out << "#MIN "; for(int k=0; k<_parameters.dimX(); ++k) { out << _min[k] << " "; } out << std::endl;
 		out << "#MAX "; for(int k=0; k<_parameters.dimX(); ++k) { out << _max[k] << " "; } out << std::endl; 
-- 
2.43.0


From edd904621585393cbbb3b130ee8dd5f9a2071628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 125/143] fix: data2data in Python refused the output
 conversions of the library

---
 sources/python/alta.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 60539cf..c1b5305 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -243,7 +243,8 @@ static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
  */
 static ptr<data> data2data(const data* d_in, const parameters& target)
 {
-    if (target.dimY() != d_in->parametrization().dimY()
+    if ((target.dimY() != d_in->parametrization().dimY()
+         && target.dimY() != 1 && d_in->parametrization().dimY() != 1)
         || target.input_parametrization() == params::UNKNOWN_INPUT
         || target.dimX() != params::dimension(target.input_parametrization())
         || d_in->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
-- 
2.43.0


From e8ed7d19342039fd7cc563b8b10037830647e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 126/143] fix: the Ward model's derivatives for its roughness
 were wrong

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..5e0ad9b 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * gauss * (1.0/ax) * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1.0);
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * gauss * (1.0/ay) * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1.0);
 			 }
 			 else
 			 {
-- 
2.43.0


From 826cf39b92646cfdbfe2cdea3e17dffe683cea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 127/143] fix: the normalized Schlick term's derivative is
 -1/R^2, not -1/R

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index f04da10..6a7adfd 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From 8477e728f6c4d40673dd5f2959c480b7b592062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 128/143] fix: the Beckmann model's derivative for its
 roughness lacked a power of the cosine

---
 sources/plugins/nonlinear_function_beckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..581bda3 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From c83a01dfe99791ad0d1da975e6a067ba8a677e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 129/143] fix: the retro Beckmann model's derivative for its
 roughness lacked a power of the cosine

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 4052122..53f5aad 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 011bec67238b6b978bf70050e785f4de6e036d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 130/143] fix: the retro Beckmann lobe around the light used a
 wrong dot product

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 53f5aad..35b150e 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From 233f78d63dcccfad7c2da5f4f9fe3a887a01cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 131/143] fix: the ABC model's derivatives were not null
 outside of its domain

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 7396864..2bb1b39 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From bcdfcb4d3cabb324b26c8a85399d93324d4f9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 132/143] fix: the retro Blinn model's derivative was not null
 on the far side of its lobe

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index ca3a511..3289569 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -152,7 +152,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From e1d357674676ba78e1bc24474bc9a67a65dd9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 133/143] fix: the Smith shadowing term's derivative was wrong

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..cb0c666 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -234,7 +234,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (sqrt(2.0 * M_PI) * r * w[i]) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From 0929ac049c836dec70b4de10b53a25872b8dcc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 134/143] fix: the retro spherical Gaussian lobe was a mirror
 lobe

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index b82bef2..db00fec 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -80,6 +80,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 		params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
 		dot = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else
 	{
 		double spherical[4];
-- 
2.43.0


From 425ffe958c3d0ae91c2f7dfbccf06114adefb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 135/143] fix: the moment spherical Gaussian's derivative for
 its skew was wrong

---
 .../nonlinear_function_spherical_gaussian/function.cpp   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index db00fec..388745b 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -216,12 +216,15 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi_l = spherical[1];
+			 spherical[1] *= _a;
+			 spherical[1] += 1.5*M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 // only the horizontal part of the dot product depends on a
+			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4];
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * phi_l * dot2;
 
 		 }
 	 }
-- 
2.43.0


From 6fa9ea62313540e8dd2db659b0aa3aadafc3d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 136/143] fix: the Walter shadowing term used 2.267 for the
 constant 2.276 of its approximation

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From ec82ed32ba47f508e086f7f0e84a84a881f64a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 137/143] fix: the Walter shadowing term's derivative was not
 null where nothing is shadowed

---
 .../plugins/nonlinear_shadowing_walter_smith/function.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..fe8c8f0 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -220,6 +220,12 @@ inline
 float
 WalterSmith::partialDerivative( float alpha, float tangent_value) const
 {
+  // The shadow term is constant there
+  if( alpha * tangent_value * 1.6 <= 1.0 )
+  {
+    return 0.0f;
+  }
+
   //Exported from Maple 
   float const t1 = tangent_value;
   float const t2 = alpha * t1;
-- 
2.43.0


From b4240b3f2b7647e4b5059696f4bbc4734f1a76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 138/143] fix: the Yoo model was negative: misplaced
 parenthesis

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 652ac83..ed6c42b 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i])) / (q*_lt[i]));
 	}
 	return res;
 }
@@ -110,7 +110,7 @@ vec yoo_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				const double q = 2.0 * M_PI * x[0] / 633.0;
-				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i])) / (q*_lt[i]));
 				// df / dk_r
 				jac[i*nbParameters() + j*2+0] = base;
 
-- 
2.43.0


From a8a7e092d7f38854a4caf7e9b495dec1c8ab57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 139/143] fix: the Yoo model's derivative for the mean free
 path was a stub

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index ed6c42b..3de14f3 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -115,8 +115,13 @@ vec yoo_function::parametersJacobian(const vec& x) const
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				const double l   = _lt[i];
+				const double e   = exp(- 1.4 * q * l);
+				const double a   = 2.4 + 1.0 / (1.0 + q*l*l);
+				const double b   = 1.0 + (1.0 - e) / (q*l);
+				const double da  = - 2.0 * q*l / ((1.0 + q*l*l)*(1.0 + q*l*l));
+				const double db  = (1.4 * q*l * e - (1.0 - e)) / (q*l*l);
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (da*b + a*db);
 			}
 			else
 			{
-- 
2.43.0


From c1739bf0d83a26c758669769f2c656f8f798c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:56 +0000
Subject: [PATCH 140/143] fix: the shifted gamma model reported null
 derivatives

---
 .../nonlinear_function_sgd/function.cpp       | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index df1c884..b67e38f 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -140,10 +140,53 @@ vec shifted_gamma_function::parametersJacobian(const vec& x) const {
 	const int n = _parameters.dimY();
     vec jac(n*nbParameters());
 
+	 jac.fill(0.0);
+
+	 vec lv(3), ev(3), nv(3);
+	 lv[0] = x[0]; lv[1] = x[1]; lv[2] = x[2];
+	 ev[0] = x[3]; ev[1] = x[4]; ev[2] = x[5];
+	 nv[0] = 0.0;  nv[1] = 0.0;  nv[2] = 1.0;
+	 vec const halfVector = normalize(lv + ev);
+
+	 double const v_h = dot(ev, halfVector);
+	 double const n_h = dot(nv, halfVector);
+	 if(lv[2] < 0.0) { return jac; }
+
+	 double const cos2 = n_h*n_h;
+	 double const tan2 = (1.0 - cos2)/cos2;
+
+	 vec const d  = D(alpha, p, n_h, K_ap);
+	 vec const gl = G1(lv[2]);
+	 vec const gv = G1(ev[2]);
+	 vec const f  = Fresnel(F_0, F_1, v_h);
+
 	 for(int i=0; i<n; ++i) {
-		 for(int j=0; j<nbParameters(); ++j) {
-		 	jac[i + j*n] = 0.0;
+		 double* const j = &jac[i*nbParameters() + i];
+		 double const scale = one_pi * rho_s[i];
+		 double const ax    = alpha[i] + tan2/alpha[i];
+
+		 // Shadowing: c, theta0, k and lambda, for the light and the view
+		 for(int s=0; s<2; ++s) {
+			 double const other = scale * d[i] * f[i] * (s == 0 ? gv[i] : gl[i]);
+			 double const t = std::max<double>(acos(s == 0 ? lv[2] : ev[2]) - sh_theta0[i], 0.0);
+			 double const e = exp(sh_c[i] * pow(t, sh_k[i]));
+			 if(t > 0.0) {
+				 j[0*n] -= other * sh_lambda[i] * e * pow(t, sh_k[i]);
+				 j[1*n] += other * sh_lambda[i] * e * sh_c[i] * sh_k[i] * pow(t, sh_k[i] - 1.0);
+				 j[2*n] -= other * sh_lambda[i] * e * sh_c[i] * pow(t, sh_k[i]) * log(t);
+			 }
+			 j[3*n] += other * (1.0 - e);
 		 }
+
+		 // Distribution exponent, Fresnel, distribution scale, albedos and roughness
+		 double const shape = gl[i] * gv[i];
+		 j[ 4*n] = - scale * d[i] * shape * f[i] * log(ax);
+		 j[ 5*n] = scale * d[i] * shape * (1.0 - pow(1.0 - v_h, 5.0));
+		 j[ 6*n] = - scale * d[i] * shape * v_h;
+		 j[ 7*n] = scale * shape * f[i] * exp(-ax) / pow(ax, p[i]) * one_pi / (cos2*cos2);
+		 j[ 8*n] = one_pi;
+		 j[ 9*n] = one_pi * d[i] * shape * f[i];
+		 j[10*n] = - scale * d[i] * shape * f[i] * (1.0 + p[i]/ax) * (1.0 - tan2/(alpha[i]*alpha[i]));
 	 }
 
     return jac;
-- 
2.43.0


From f84e00c6ad5dc5752579ec0939e34938a74cbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 141/143] fix: the cosine correction of loaded data multiplied
 by one of the cosines, and left the intervals behind

---
 sources/core/data_storage.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index ba330d3..aff6320 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -39,21 +39,19 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + dimY || v.size() == dimX + 3*dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
+    // Correction of the data, and of its confidence interval if any, by
+    // 1/(cosine(theta_L) cosine(theta_V))
     double factor = 1.0;
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        factor = cart[5]*cart[2];
+        for(unsigned int i = dimX; i < v.size(); ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
-            v(i + dimX) /= factor;
+            v(i) /= factor;
         }
         return true;
     }
@@ -242,8 +240,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From 3e971d798963e38b90b67036e63c740c9971ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 142/143] fix: loading data with a cosine correction wrote a
 file in /tmp

---
 sources/core/data_storage.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index aff6320..1ae4aec 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -262,9 +262,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
-- 
2.43.0


From 55108ed037892a0063dc38f13f2aefbe62383741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:55 +0000
Subject: [PATCH 143/143] fix: rational_fitter_eigen skipped the solution of
 data that a function fits exactly

---
 sources/plugins/rational_fitters/eigen.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..31a4fa4 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -180,8 +180,9 @@ class rational_fitter_eigen : public fitter
 				double min_val = std::numeric_limits<double>::max() ;
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
-					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					// Round-off may make a null eigenvalue negative.
+					double value = std::max(solver.eigenvalues()[i], 0.0) ;
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0

