From caf4a93b7fdae0a29c8603f4791000fbfa653a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 01/23] fix: repeat constraint solving until nothing changes

csp_solution_iteration dropped the result of csp_process_pixel,
so solve_csp stopped after one pass over the pixels
and left nodes which have no available edges to a neighbor.
---
 lib/constraint_graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..f6892de 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
@@ -344,7 +347,7 @@ __device__ BOOL csp_solution_iteration(
     {
         if (!check_nodes_left(graph))
         {
-            return FALSE;
+            return changed;
         }
         make_all_nodes_unavailable(graph);
         return TRUE;
-- 
2.43.0


From ec133649f14568c91a5b7d3f36d3c4add60b863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 02/23] fix: take only existing edges to left neighbors into
 account

The lower bound of neighbor's disparity was applied
to the left neighbor as well, though its disparity is bounded from above.
Lowest penalties of neighborhoods and candidate thresholds
were calculated by wrong sets of edges.
---
 lib/labeling_finder.cpp  | 8 ++++++--
 lib/lowest_penalties.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..b145fd3 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -116,7 +116,7 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -128,7 +128,11 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
         for (
             edge.neighbor.disparity = initial_disparity;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
-                && edge.neighbor.disparity < graph->disparity_levels;
+                && edge.neighbor.disparity < graph->disparity_levels
+                && (
+                    edge.neighbor.pixel.x >= edge.node.pixel.x
+                    || edge.neighbor.disparity <= edge.node.disparity + 1
+                );
             ++edge.neighbor.disparity
         )
         {
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..d3bd29b 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -154,7 +154,7 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -166,7 +166,11 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
         for (
             edge.neighbor.disparity = initial_disparity;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
-                && edge.neighbor.disparity < graph->disparity_levels;
+                && edge.neighbor.disparity < graph->disparity_levels
+                && (
+                    edge.neighbor.pixel.x >= edge.node.pixel.x
+                    || edge.neighbor.disparity <= edge.node.disparity + 1
+                );
             ++edge.neighbor.disparity
         )
         {
-- 
2.43.0


From 8356e9422378cf5b600093c865e14fa96f57027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/23] fix: choose the best node correctly when penalties are
 negative

Negative value of the minimal penalty meant that it's not set yet,
so a node with a negative penalty was forgotten on the next step.
---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index b145fd3..95014e8 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -269,7 +269,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    bool penalty_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -282,9 +283,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!penalty_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            penalty_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From f9e843feffc2560058ac3edc3d088fed7b1d400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 04/23] fix: report several labels of a pixel when building
 disparity map

The loop was interrupted after the first label,
so the check for the second one was never reached.
---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 95014e8..99c2914 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -426,7 +426,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 5a0960d63fd54845a53b2db88e9aa8a6a833c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 05/23] fix: choose another node when the best one has no
 consistent labeling

Solving the constraint satisfaction problem leaves nodes
which aren't a part of any consistent labeling.
When such a node was the best one, find_labeling gave up
even if the problem had a solution.
---
 include/labeling_finder.hpp |  4 +++-
 lib/labeling_finder.cpp     | 26 ++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/labeling_finder.hpp b/include/labeling_finder.hpp
index 8d35b74..f31ab7a 100644
--- a/include/labeling_finder.hpp
+++ b/include/labeling_finder.hpp
@@ -166,7 +166,9 @@ struct ConstraintGraph* find_labeling_cuda(
  *
  *   - execute sp::labeling::finder::choose_best_node to use the best node;
  *   - run sp::graph::constraint::solve_csp for the graph
- *   to remove inconsistent nodes and edges.
+ *   to remove inconsistent nodes and edges;
+ *   - if nothing is left,
+ *   restore the graph without the chosen node, and choose another one.
  *
  * As the result,
  * we will have a graph,
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 99c2914..6ffc119 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -50,6 +50,7 @@ using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
 using sp::types::BOOL;
+using sp::types::BOOL_ARRAY;
 using sp::types::Node;
 using sp::types::ULONG;
 using sp::types::ULONG_ARRAY;
@@ -360,13 +361,26 @@ __device__ struct ConstraintGraph* find_labeling(
     {
         for (ULONG y = 0; y < graph->disparity_graph->left.height; ++y)
         {
-            if (choose_best_node(graph, {x, y}) == nullptr)
+            struct Node node{{x, y}, 0};
+            while (true)
             {
-                return nullptr;
-            }
-            if (!solve_csp(graph))
-            {
-                return nullptr;
+                const BOOL_ARRAY availability = graph->nodes_availability;
+                if (choose_best_node(graph, node.pixel) == nullptr)
+                {
+                    return nullptr;
+                }
+                node.disparity = 0;
+                while (!is_node_available(graph, node))
+                {
+                    ++node.disparity;
+                }
+                if (solve_csp(graph))
+                {
+                    break;
+                }
+                // The best node isn't a part of any consistent labeling.
+                graph->nodes_availability = availability;
+                make_node_unavailable(graph, node);
             }
         }
     }
-- 
2.43.0


From 705c0627af7c6efac8c4197b62cf453de8efab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 06/23] fix: check existence of an edge before reading its
 penalty

is_edge_available read arrays out of their bounds
for edges which don't exist.
---
 lib/constraint_graph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index f6892de..3c8b169 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -161,12 +161,12 @@ __device__ BOOL is_edge_available(
 )
 {
     return
-        (edge_penalty(graph->disparity_graph, edge)
+        edge_exists(graph->disparity_graph, edge)
+        && (edge_penalty(graph->disparity_graph, edge)
          - lowest_neighborhood_penalty(graph->lowest_penalties, edge)
          <= graph->threshold)
         && is_node_available(graph, edge.node)
-        && is_node_available(graph, edge.neighbor)
-        && edge_exists(graph->disparity_graph, edge);
+        && is_node_available(graph, edge.neighbor);
 }
 
 __device__ BOOL should_remove_node(
-- 
2.43.0


From 7b8c7eb281f413053a32efb0f57ebbc2308d271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 07/23] fix: recognize PGM comments which follow a number
 without a space

Such a comment was taken for data:
the rest of its line was read as the next instructions.
---
 lib/pgm_io.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..b2e33e3 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -69,21 +69,23 @@ string PGM_IO::read_pgm_instruction(istream& in)
         return "";
     }
     string current_input;
-    in >> current_input;
-    while (in.good() && current_input[0] == '#')
+    while (in >> current_input)
     {
-        in.ignore(numeric_limits<streamsize>::max(), '\n');
-        if (in.fail())
+        const auto comment_start = current_input.find('#');
+        if (comment_start == string::npos)
         {
-            return "";
+            return current_input;
+        }
+        if (!in.eof())
+        {
+            in.ignore(numeric_limits<streamsize>::max(), '\n');
+        }
+        if (comment_start > 0)
+        {
+            return current_input.substr(0, comment_start);
         }
-        in >> current_input;
-    }
-    if (current_input[0] == '#')
-    {
-        return "";
     }
-    return current_input;
+    return "";
 }
 
 bool PGM_IO::check_file_end(istream& in)
-- 
2.43.0


From 9cafc244fd3a9bbe70d68bfa06d5514b67758a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 08/23] fix: accept only plain decimal numbers in PGM files

Negative numbers and numbers followed by garbage were accepted,
and an exception escaped from the reader for too big numbers.
---
 include/pgm_io.hpp |  8 ++++++++
 lib/pgm_io.cpp     | 28 +++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/pgm_io.hpp b/include/pgm_io.hpp
index 137c980..d276423 100644
--- a/include/pgm_io.hpp
+++ b/include/pgm_io.hpp
@@ -33,6 +33,7 @@ namespace sp::image
 {
 
 using sp::image::Image;
+using sp::types::ULONG;
 using std::istream;
 using std::ostream;
 using std::shared_ptr;
@@ -75,6 +76,13 @@ private:
      * or blank string if input stream is finished.
      */
     static std::string read_pgm_instruction(std::istream& in);
+    /**
+     * \brief Read the next chunk as a plain decimal number.
+     *
+     * \throw std::logic_error
+     *  There's no number or it's too big.
+     */
+    static ULONG read_pgm_number(std::istream& in);
     /**
      * \brief Check whether PGM file ends correctly.
      *
diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index b2e33e3..7ed5931 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -29,18 +29,19 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace sp::image
 {
 
 using sp::indexing::pixel_index;
-using sp::types::ULONG;
 using std::endl;
 using std::invalid_argument;
 using std::ios;
 using std::ios_base;
 using std::isspace;
+using std::logic_error;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
@@ -88,6 +89,19 @@ string PGM_IO::read_pgm_instruction(istream& in)
     return "";
 }
 
+ULONG PGM_IO::read_pgm_number(istream& in)
+{
+    const string number = PGM_IO::read_pgm_instruction(in);
+    if (
+        number.empty()
+        || number.find_first_not_of("0123456789") != string::npos
+    )
+    {
+        throw invalid_argument("`" + number + "` is not a decimal number.");
+    }
+    return stoul(number);
+}
+
 bool PGM_IO::check_file_end(istream& in)
 {
     char current_input;
@@ -159,11 +173,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width = PGM_IO::read_pgm_number(in);
+        image->height = PGM_IO::read_pgm_number(in);
+        image->max_value = PGM_IO::read_pgm_number(in);
     }
-    catch (invalid_argument&)
+    catch (logic_error&)
     {
         in.setstate(ios_base::failbit);
         return in;
@@ -183,9 +197,9 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
             try
             {
                 image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
+                    PGM_IO::read_pgm_number(in);
             }
-            catch (invalid_argument&)
+            catch (logic_error&)
             {
                 in.setstate(ios_base::failbit);
                 return in;
-- 
2.43.0


From 8641f41c79a40fa01a9b84c0729cae5393265177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 09/23] fix: keep the image when PGM file has redundant data

The image was replaced even though the reading failed.
---
 lib/pgm_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 7ed5931..9236bee 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -121,7 +121,7 @@ bool PGM_IO::check_file_end(istream& in)
     {
         in.clear(ios::goodbit | ios::eofbit);
     }
-    return in.good();
+    return !in.fail();
 }
 
 ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
@@ -207,7 +207,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         }
     }
 
-    PGM_IO::check_file_end(in);
+    if (!PGM_IO::check_file_end(in))
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From c54e878fc18ec8f8481e641dffb6bf109c42c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 10/23] fix: don't trust the size specified in PGM file

Product of width and height could overflow,
so data was written out of bounds of the image.
Otherwise, memory for the whole image was allocated
even if the file contained no data.
---
 lib/pgm_io.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 9236bee..a29ed32 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -183,12 +183,15 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         return in;
     }
 
-    if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
+    if (
+        image->width == 0
+        || image->height == 0
+        || image->max_value > PGM_IO::MAX_VALUE_LIMIT
+    )
     {
         in.setstate(ios_base::failbit);
         return in;
     }
-    image->data.resize(image->width * image->height);
 
     for (ULONG y = 0; y < image->height; ++y)
     {
@@ -196,8 +199,7 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         {
             try
             {
-                image->data[pixel_index(image.get(), {x, y})] =
-                    PGM_IO::read_pgm_number(in);
+                image->data.push_back(PGM_IO::read_pgm_number(in));
             }
             catch (logic_error&)
             {
-- 
2.43.0


From a0dd6cdb1927129094d2d2bd6758ba4ccdba093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 11/23] fix: don't check a character which wasn't read at the
 end of PGM file

When the data ended with a line of comment,
an uninitialized character was checked.
---
 lib/pgm_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a29ed32..f1b3599 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -105,9 +105,8 @@ ULONG PGM_IO::read_pgm_number(istream& in)
 bool PGM_IO::check_file_end(istream& in)
 {
     char current_input;
-    while (in.good() && !in.eof())
+    while (in.get(current_input))
     {
-        in.get(current_input);
         if (current_input == '#')
         {
             in.ignore(numeric_limits<streamsize>::max(), '\n');
-- 
2.43.0


From e8eaccf412561fda407025f8c58f8c629bd6c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 12/23] fix: read fractional weights and refuse malformed
 numeric options

Weights were parsed as unsigned integers:
`0.5` became zero and `-1` became the biggest number.
Trailing garbage was ignored in all numeric options.
---
 lib/main.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..21b9798 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -11,6 +11,7 @@
 #include <pgm_io.hpp>
 
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -18,6 +19,8 @@
 #include <string>
 
 struct sp::image::Image read_image(const std::string& image_path);
+sp::types::ULONG parse_disparity_levels(const std::string& value);
+sp::types::FLOAT parse_weight(const std::string& value);
 
 enum Parallelism
 {
@@ -143,21 +146,21 @@ int main(int argc, char* argv[]) try
             }
             else
             {
-                disparity_levels = std::stoul(
+                disparity_levels = parse_disparity_levels(
                     vm["disparity-levels"].as<std::string>()
                 );
             }
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = parse_weight(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = parse_weight(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -307,3 +310,28 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::ULONG parse_disparity_levels(const std::string& value)
+{
+    if (
+        value.empty()
+        || value.find_first_not_of("0123456789") != std::string::npos
+    )
+    {
+        throw std::invalid_argument(
+            "Number of disparity levels cannot be `" + value + "`."
+        );
+    }
+    return std::stoul(value);
+}
+
+sp::types::FLOAT parse_weight(const std::string& value)
+{
+    std::size_t length = 0;
+    const sp::types::FLOAT weight = std::stod(value, &length);
+    if (length != value.size() || !std::isfinite(weight))
+    {
+        throw std::invalid_argument("Weight cannot be `" + value + "`.");
+    }
+    return weight;
+}
-- 
2.43.0


From c66527f3cdaa55b0974fb28d732b9cbe0e0cea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 13/23] fix: exit with non-zero status when the disparity map
 isn't computed

---
 lib/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 21b9798..01be8ac 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -247,10 +247,12 @@ int main(int argc, char* argv[]) try
         catch (std::invalid_argument& e)
         {
             std::cerr << "Invalid argument: " << e.what() << std::endl;
+            return 1;
         }
         catch (std::logic_error& e)
         {
             std::cerr << "Logic error: " << e.what() << std::endl;
+            return 1;
         }
     }
     else if (vm.count("left-image") == 0 || vm.count("right-image") == 0)
@@ -258,12 +260,14 @@ int main(int argc, char* argv[]) try
         std::cerr
             << "You should specify both left and right image."
             << std::endl;
+        return 1;
     }
     else if (vm.count("output-image") == 0)
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
+        return 1;
     }
     else
     {
-- 
2.43.0


From d6b913086b00f737b51f982fcf4574b23f7c98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/23] fix: print help when asked or when launched without
 parameters

README promises this, but the help was unreachable.
---
 lib/main.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 01be8ac..3a2a70c 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -79,6 +79,12 @@ int main(int argc, char* argv[]) try
 
     boost::program_options::notify(vm);
 
+    if (argc <= 1 || vm.count("help") != 0)
+    {
+        std::cout << desc;
+        return 0;
+    }
+
     if (
         vm.count("output-image") == 1
         && vm.count("left-image") == 1
@@ -262,18 +268,13 @@ int main(int argc, char* argv[]) try
             << std::endl;
         return 1;
     }
-    else if (vm.count("output-image") == 0)
+    else
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
         return 1;
     }
-    else
-    {
-        std::cout << desc;
-        return 1;
-    }
     return 0;
 }
 catch(std::exception& e) {
-- 
2.43.0


From 2cd233838989a333f136b41039cc649779442091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 15/23] fix: report failure of writing the disparity map

Status of the output file wasn't checked,
so the program exited successfully without writing the map.
---
 lib/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 3a2a70c..60c56b7 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -249,6 +249,14 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::runtime_error(
+                    "Unable to write file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
-- 
2.43.0


From 18d99c4f85b6f99f4775f04986f0a6723487c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 16/23] fix: repeat OpenCL iterations from the host

Work items cleared and set shared flags without synchronization between
work groups, and repeated the loop with barriers depending on these flags.
Items of the same group could leave the loop at different times
and wait at the barriers forever,
and items which start late could clear the flag for the host,
so it stopped too early.
---
 lib/gpu_csp.cpp  |  7 ++++---
 lib/solve_csp.cl | 33 ++++-----------------------------
 2 files changed, 8 insertions(+), 32 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..f98375c 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -69,7 +69,7 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> changed(vector<int>{0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -124,6 +124,7 @@ BOOL csp_solution_cl(
 
             do
             {
+                changed[0] = 0;
                 queue.enqueue_1d_range_kernel(
                     csp_iteration,
                     0,
@@ -132,7 +133,7 @@ BOOL csp_solution_cl(
                 );
 
                 queue.finish();
-            } while (changed[1] != 0);
+            } while (changed[0] != 0);
         }
     }
 
@@ -140,7 +141,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return changed[0] != 0;
 }
 
 }
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..02ac0d1 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -51,26 +51,6 @@ void populate_structures_gpu(
     constraint_graph->disparity_graph = disparity_graph;
 }
 
-void csp_solution_iteration_gpu(
-    struct ConstraintGraph* constraint_graph,
-    struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
-)
-{
-    do
-    {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
-}
-
 __kernel void csp_iteration(
     __global int* nodes_availability,
     __global int* changed,
@@ -113,19 +93,14 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
 
-    csp_solution_iteration_gpu(
-        &constraint_graph,
-        pixel,
-        &changed[0],
-        &changed[1]
-    );
+    if (csp_process_pixel(&constraint_graph, pixel))
+    {
+        *changed = 1;
+    }
 }
 
 __kernel void choose_best_node_gpu(
-- 
2.43.0


From fc4eac38a1d9b03f2f93059cf8b671f7c52fcf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 17/23] fix: choose another node in OpenCL when there's no
 consistent labeling

The backend left no nodes in this case,
though find_labeling chooses the next best node.
Absence of a labeling wasn't reported.
---
 include/gpu_csp.hpp     |  3 ++
 lib/gpu_csp.cpp         | 78 +++++++++++++++++++++++++++++++++--------
 lib/labeling_finder.cpp |  3 +-
 3 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/include/gpu_csp.hpp b/include/gpu_csp.hpp
index 1427e61..0f1d5d1 100644
--- a/include/gpu_csp.hpp
+++ b/include/gpu_csp.hpp
@@ -64,6 +64,9 @@ void prepare_problem(struct ConstraintGraph* graph, struct Problem* problem);
  * and save the nodes availability data
  * (sp::graph::constraint::ConstraintGraph::nodes_availability)
  * into the input sp::graph::constraint::ConstraintGraph.
+ *
+ * @return
+ *  `true` if a labeling was found, `false` otherwise.
  */
 BOOL csp_solution_cl(
     struct ConstraintGraph* graph,
diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index f98375c..4253284 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -1,6 +1,8 @@
 #include <compile_cl.hpp>
 #include <gpu_csp.hpp>
+#include <indexing.hpp>
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -13,8 +15,10 @@ namespace compute = boost::compute;
 using boost::compute::command_queue;
 using boost::compute::kernel;
 using boost::compute::system;
+using sp::indexing::node_index;
 using std::cout;
 using std::endl;
+using std::find;
 using std::string;
 using std::vector;
 
@@ -69,6 +73,8 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
+    compute::vector<int> previous_availability(tmp, problem->queue);
+    vector<int> chosen_nodes(graph->disparity_graph->disparity_levels);
     compute::vector<int> changed(vector<int>{0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
@@ -117,23 +123,67 @@ BOOL csp_solution_cl(
     {
         for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
         {
-            choose_best_node_gpu.set_arg(x_index, x);
-            choose_best_node_gpu.set_arg(y_index, y);
-            queue.enqueue_task(choose_best_node_gpu);
-            queue.finish();
-
-            do
+            const ULONG pixel_nodes
+                = node_index(graph->disparity_graph, {{x, y}, 0});
+            bool labeled = false;
+            while (!labeled)
             {
-                changed[0] = 0;
-                queue.enqueue_1d_range_kernel(
-                    csp_iteration,
-                    0,
-                    graph->disparity_graph->right.data.size(),
-                    0
+                compute::copy(
+                    nodes_availability.begin(),
+                    nodes_availability.end(),
+                    previous_availability.begin(),
+                    queue
                 );
 
+                choose_best_node_gpu.set_arg(x_index, x);
+                choose_best_node_gpu.set_arg(y_index, y);
+                queue.enqueue_task(choose_best_node_gpu);
                 queue.finish();
-            } while (changed[0] != 0);
+
+                compute::copy_n(
+                    nodes_availability.begin() + pixel_nodes,
+                    chosen_nodes.size(),
+                    chosen_nodes.begin(),
+                    queue
+                );
+                const auto chosen_node = find(
+                    chosen_nodes.begin(),
+                    chosen_nodes.end(),
+                    1
+                );
+                if (chosen_node == chosen_nodes.end())
+                {
+                    return false;
+                }
+
+                do
+                {
+                    changed[0] = 0;
+                    queue.enqueue_1d_range_kernel(
+                        csp_iteration,
+                        0,
+                        graph->disparity_graph->right.data.size(),
+                        0
+                    );
+
+                    queue.finish();
+                } while (changed[0] != 0);
+
+                const ULONG chosen_index
+                    = pixel_nodes + (chosen_node - chosen_nodes.begin());
+                labeled = nodes_availability[chosen_index] != 0;
+                if (!labeled)
+                {
+                    // The node isn't a part of any consistent labeling.
+                    compute::copy(
+                        previous_availability.begin(),
+                        previous_availability.end(),
+                        nodes_availability.begin(),
+                        queue
+                    );
+                    nodes_availability[chosen_index] = 0;
+                }
+            }
         }
     }
 
@@ -141,7 +191,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[0] != 0;
+    return true;
 }
 
 }
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 6ffc119..9c814dc 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -335,8 +335,7 @@ struct ConstraintGraph* find_labeling_cl(
     struct gpu::Problem problem;
     build_csp_program(&problem);
     prepare_problem(graph, &problem);
-    gpu::csp_solution_cl(graph, &problem);
-    return graph;
+    return gpu::csp_solution_cl(graph, &problem) ? graph : nullptr;
 }
 #endif
 
-- 
2.43.0


From 497b4c187ed459f4853e11f35a0e39ecf6d33ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:36 +0000
Subject: [PATCH 18/23] fix: do not share memory locations between nodes

Solving in several threads writes availability of nodes concurrently.
Elements of std::vector<bool> share words, so that a thread could restore
removed nodes by writing a stale word,
and the threads could repeat the same passes endlessly.
---
 include/types.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/types.hpp b/include/types.hpp
index c3952d8..a230c37 100644
--- a/include/types.hpp
+++ b/include/types.hpp
@@ -78,8 +78,12 @@ using BOOL = bool;
 /**
  * \brief Boolean array type alias
  * to use the same name on CPU and GPU.
+ *
+ * Elements may be modified by different threads at the same time,
+ * so they should not share memory locations like the ones
+ * of `std::vector<bool>` do.
  */
-using BOOL_ARRAY = std::vector<BOOL>;
+using BOOL_ARRAY = std::vector<unsigned char>;
 
 const BOOL TRUE = true;
 const BOOL FALSE = false;
-- 
2.43.0


From 7c008bb0339fb5aea8b01973214edeb135412666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 19/23] fix: repeat CUDA iterations from the host and choose
 another node

Threads of the grid were synchronized by a grid group, although the kernel
isn't launched as a cooperative one, and the flag which says that something
was changed was cleared while other threads could still read it.
Also, CUDA back end reported a labeling even if there was none.
---
 include/cuda_csp.hpp    |  14 +--
 lib/cuda_csp.cu         | 187 +++++++++++++++++++++++++++++-----------
 lib/labeling_finder.cpp |   4 +-
 lib/solve_csp.cu        |  14 +--
 4 files changed, 151 insertions(+), 68 deletions(-)

diff --git a/include/cuda_csp.hpp b/include/cuda_csp.hpp
index d75362c..b89ae6e 100644
--- a/include/cuda_csp.hpp
+++ b/include/cuda_csp.hpp
@@ -62,14 +62,16 @@ void prepare_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
 void free_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem);
 
 /**
- * \brief Remove all nodes that have no any edges at least to one neighbor
+ * \brief For each pixel, choose the best available node,
+ * and remove all nodes that have no any edges at least to one neighbor
  * until there is nothing to remove
- * (anything is removed or all nodes have neighbors),
- * and save the nodes availability data
- * (sp::graph::constraint::ConstraintGraph::nodes_availability)
- * into the input sp::graph::constraint::ConstraintGraph.
+ * (anything is removed or all nodes have neighbors).
+ * If the chosen node gets removed too, choose another one.
+ *
+ * The labeling is saved in CUDAProblem::nodes_availability.
+ * Returns `false` if there is no labeling.
  */
-void csp_solution_cuda(
+BOOL csp_solution_cuda(
     struct ConstraintGraph* graph,
     struct CUDAProblem* problem
 );
diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 06120ca..55bc186 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -25,6 +25,7 @@
 #include <cuda_csp.hpp>
 #include <solve_csp.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <vector>
@@ -50,6 +51,7 @@ __host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
 namespace gpu
 {
 
+using std::find;
 using std::vector;
 
 void prepare_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
@@ -174,65 +176,152 @@ void free_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
     cdpErrchk(cudaDeviceSynchronize());
 }
 
-void csp_solution_cuda(
+BOOL csp_solution_cuda(
     struct ConstraintGraph* graph,
     struct CUDAProblem* problem
 )
 {
-    for (ULONG x = 0; x < graph->disparity_graph->right.width; ++x)
+    const ULONG disparity_levels = graph->disparity_graph->disparity_levels;
+    const size_t nodes_size = graph->nodes_availability.size() * sizeof(int);
+    const int unavailable = 0;
+    int* previous_availability;
+    vector<int> chosen_nodes(disparity_levels);
+    BOOL found = true;
+
+    cdpErrchk(cudaMalloc((void**)&previous_availability, nodes_size));
+
+    for (ULONG x = 0; found && x < graph->disparity_graph->right.width; ++x)
     {
-        for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
+        for (
+            ULONG y = 0;
+            found && y < graph->disparity_graph->right.height;
+            ++y
+        )
         {
-            cudaCheckError();
-
-            choose_best_node_gpu<<<1, 1>>>(
-
-                problem->nodes_availability,
-
-                problem->left_image,
-                problem->right_image,
-                problem->min_penalties_pixels,
-                problem->min_penalties_edges,
-                problem->reparametrization,
-
-                graph->disparity_graph->right.height,
-                graph->disparity_graph->right.width,
-                graph->disparity_graph->right.max_value,
-                graph->disparity_graph->disparity_levels,
-                graph->threshold,
-                graph->disparity_graph->cleanness,
-                graph->disparity_graph->smoothness,
-
-                x,
-                y
-            );
-
-            csp_iteration_cuda<<<
-                graph->disparity_graph->right.width,
-                graph->disparity_graph->right.height
-            >>>(
-
-                problem->nodes_availability,
-
-                problem->changed,
-                problem->left_image,
-                problem->right_image,
-                problem->min_penalties_pixels,
-                problem->min_penalties_edges,
-                problem->reparametrization,
-
-                graph->disparity_graph->right.height,
-                graph->disparity_graph->right.width,
-                graph->disparity_graph->right.max_value,
-                graph->disparity_graph->disparity_levels,
-                graph->threshold,
-                graph->disparity_graph->cleanness,
-                graph->disparity_graph->smoothness
-            );
+            int* pixel_nodes = problem->nodes_availability
+                + disparity_levels
+                * (y + graph->disparity_graph->right.height * x);
+            bool labeled = false;
+            while (!labeled)
+            {
+                cudaCheckError();
+
+                cdpErrchk(cudaMemcpy(
+                    previous_availability,
+                    problem->nodes_availability,
+                    nodes_size,
+                    cudaMemcpyDeviceToDevice)
+                );
+
+                choose_best_node_gpu<<<1, 1>>>(
+
+                    problem->nodes_availability,
+
+                    problem->left_image,
+                    problem->right_image,
+                    problem->min_penalties_pixels,
+                    problem->min_penalties_edges,
+                    problem->reparametrization,
+
+                    graph->disparity_graph->right.height,
+                    graph->disparity_graph->right.width,
+                    graph->disparity_graph->right.max_value,
+                    graph->disparity_graph->disparity_levels,
+                    graph->threshold,
+                    graph->disparity_graph->cleanness,
+                    graph->disparity_graph->smoothness,
+
+                    x,
+                    y
+                );
+
+                cdpErrchk(cudaMemcpy(
+                    chosen_nodes.data(),
+                    pixel_nodes,
+                    chosen_nodes.size() * sizeof(chosen_nodes[0]),
+                    cudaMemcpyDeviceToHost)
+                );
+                const ULONG chosen_node
+                    = find(chosen_nodes.begin(), chosen_nodes.end(), 1)
+                    - chosen_nodes.begin();
+                if (chosen_node == chosen_nodes.size())
+                {
+                    found = false;
+                    break;
+                }
+
+                int changed;
+                do
+                {
+                    changed = 0;
+                    cdpErrchk(cudaMemcpy(
+                        problem->changed,
+                        &changed,
+                        sizeof(changed),
+                        cudaMemcpyHostToDevice)
+                    );
+                    csp_iteration_cuda<<<
+                        graph->disparity_graph->right.width,
+                        graph->disparity_graph->right.height
+                    >>>(
+
+                        problem->nodes_availability,
+
+                        problem->changed,
+                        problem->left_image,
+                        problem->right_image,
+                        problem->min_penalties_pixels,
+                        problem->min_penalties_edges,
+                        problem->reparametrization,
+
+                        graph->disparity_graph->right.height,
+                        graph->disparity_graph->right.width,
+                        graph->disparity_graph->right.max_value,
+                        graph->disparity_graph->disparity_levels,
+                        graph->threshold,
+                        graph->disparity_graph->cleanness,
+                        graph->disparity_graph->smoothness
+                    );
+                    cdpErrchk(cudaMemcpy(
+                        &changed,
+                        problem->changed,
+                        sizeof(changed),
+                        cudaMemcpyDeviceToHost)
+                    );
+                } while (changed);
+
+                int chosen_available;
+                cdpErrchk(cudaMemcpy(
+                    &chosen_available,
+                    pixel_nodes + chosen_node,
+                    sizeof(chosen_available),
+                    cudaMemcpyDeviceToHost)
+                );
+                labeled = chosen_available != 0;
+                if (!labeled)
+                {
+                    // The node isn't a part of any consistent labeling.
+                    cdpErrchk(cudaMemcpy(
+                        problem->nodes_availability,
+                        previous_availability,
+                        nodes_size,
+                        cudaMemcpyDeviceToDevice)
+                    );
+                    cdpErrchk(cudaMemcpy(
+                        pixel_nodes + chosen_node,
+                        &unavailable,
+                        sizeof(unavailable),
+                        cudaMemcpyHostToDevice)
+                    );
+                }
+            }
         }
     }
     cudaCheckError();
     cdpErrchk(cudaDeviceSynchronize());
+    cdpErrchk(cudaFree(previous_availability));
+
+    return found;
 }
 
 }
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 9c814dc..0a54017 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -346,9 +346,9 @@ struct ConstraintGraph* find_labeling_cuda(
 {
     struct gpu::CUDAProblem problem;
     prepare_problem(graph, &problem);
-    gpu::csp_solution_cuda(graph, &problem);
+    const BOOL found = gpu::csp_solution_cuda(graph, &problem);
     free_problem(graph, &problem);
-    return graph;
+    return found ? graph : nullptr;
 }
 #endif
 
diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index e5617eb..1d0d15b 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -33,7 +33,6 @@
 
 #include <cuda.h>
 #include <cuda_runtime.h>
-#include <cooperative_groups.h>
 
 #if !defined(__CUDA_ARCH__)
 using sp::types::ULONG;
@@ -100,17 +99,10 @@ __device__ void csp_solution_iteration_gpu(
     int* changed
 )
 {
-    cooperative_groups::grid_group g = cooperative_groups::this_grid();
-    do
+    if (csp_process_pixel(constraint_graph, pixel))
     {
-        *changed = 0;
-        g.sync();
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed = 1;
-        }
-        g.sync();
-    } while (*changed);
+        *changed = 1;
+    }
 }
 
 __global__ void csp_iteration_cuda(
-- 
2.43.0


From fe7d198577f8c2e8634688ba1813aede224f9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 20/23] fix: process images with more than 1024 rows on CUDA

Number of threads in a block is limited, and a kernel with a bigger block
isn't launched at all.
---
 lib/cuda_csp.cu  | 11 ++++++++++-
 lib/solve_csp.cu | 15 ++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 55bc186..dc74841 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -52,8 +52,14 @@ namespace gpu
 {
 
 using std::find;
+using std::min;
 using std::vector;
 
+/**
+ * \brief The biggest number of threads in a block.
+ */
+const ULONG MAX_BLOCK_SIZE = 1024;
+
 void prepare_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
 {
     vector<unsigned> left_image(
@@ -262,7 +268,10 @@ BOOL csp_solution_cuda(
                     );
                     csp_iteration_cuda<<<
                         graph->disparity_graph->right.width,
-                        graph->disparity_graph->right.height
+                        min(
+                            graph->disparity_graph->right.height,
+                            MAX_BLOCK_SIZE
+                        )
                     >>>(
 
                         problem->nodes_availability,
diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index 1d0d15b..af7adeb 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -147,13 +147,14 @@ __global__ void csp_iteration_cuda(
 
     struct Pixel pixel;
     pixel.x = blockIdx.x;
-    pixel.y = threadIdx.x;
-
-    csp_solution_iteration_gpu(
-        &constraint_graph,
-        pixel,
-        changed
-    );
+    for (pixel.y = threadIdx.x; pixel.y < height; pixel.y += blockDim.x)
+    {
+        csp_solution_iteration_gpu(
+            &constraint_graph,
+            pixel,
+            changed
+        );
+    }
 }
 
 __global__ void choose_best_node_gpu(
-- 
2.43.0


From 0a0630deed20e3163e4d327dfa792ad53ebe4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:14 +0000
Subject: [PATCH 21/23] fix: report CUDA failures as exceptions

The program exited with zero status when a kernel wasn't launched, and went
on with garbage when other calls failed in builds without assertions.
---
 lib/cuda_csp.cu | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index dc74841..9fe69f0 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -26,27 +26,27 @@
 #include <solve_csp.hpp>
 
 #include <algorithm>
-#include <cassert>
-#include <cstdio>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #define cdpErrchk(ans) { cdpAssert((ans), __FILE__, __LINE__); }
-__host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
+inline void cdpAssert(cudaError_t code, const char *file, int line)
 {
-   if (code != cudaSuccess)
-   {
-      printf("GPU kernel assert: %s %s %d\n", cudaGetErrorString(code), file, line);
-      assert(0);
-   }
+    if (code != cudaSuccess)
+    {
+        throw std::runtime_error(
+            "CUDA failure "
+            + std::string(file)
+            + ":"
+            + std::to_string(line)
+            + ": "
+            + cudaGetErrorString(code)
+        );
+    }
 }
 
-#define cudaCheckError() {                                          \
- cudaError_t e=cudaGetLastError();                                 \
- if(e!=cudaSuccess) {                                              \
-   printf("Cuda failure %s:%d: '%s'\n",__FILE__,__LINE__,cudaGetErrorString(e));           \
-   exit(0); \
- }                                                                 \
-}
+#define cudaCheckError() cdpErrchk(cudaGetLastError())
 
 namespace gpu
 {
-- 
2.43.0


From b1a213b6307701fe5c003c868ac7b1f7c7ff7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 22/23] fix: report that the help could not be printed

---
 lib/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 60c56b7..aab058f 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -81,7 +81,11 @@ int main(int argc, char* argv[]) try
 
     if (argc <= 1 || vm.count("help") != 0)
     {
-        std::cout << desc;
+        std::cout << desc << std::flush;
+        if (!std::cout)
+        {
+            throw std::runtime_error("Unable to print the help.");
+        }
         return 0;
     }
 
-- 
2.43.0


From 532e45ca8f0ab1604a187e8b5d613f6c2a05a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 23/23] fix: refuse weights which are not numbers

---
 lib/disparity_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disparity_graph.cpp b/lib/disparity_graph.cpp
index 8cf2086..e529593 100644
--- a/lib/disparity_graph.cpp
+++ b/lib/disparity_graph.cpp
@@ -133,7 +133,7 @@ DisparityGraph::DisparityGraph(
             + "respectively."
         );
     }
-    if (this->cleanness < 0)
+    if (!(this->cleanness >= 0))
     {
         throw std::invalid_argument(
             "Cleanness weight should not be negative. "
@@ -142,7 +142,7 @@ DisparityGraph::DisparityGraph(
             + "."
         );
     }
-    if (this->smoothness < 0)
+    if (!(this->smoothness >= 0))
     {
         throw std::invalid_argument(
             "Smoothness weight should not be negative. "
-- 
2.43.0

