From 4d9b83f85b03a8ba2af51b151122d4ec6016c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 01/49] fix: compare the whole 64-bit or floating value in
 range_validator

An INT option stores a 64-bit value and a FLOAT option a double, but only
the low 32 bits were compared, so 4294967297 passed V_RANGE(1, 10) and a
float option was compared through the low half of its representation.
---
 source/callbacks/validators/range_validator.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..3186e1d 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,9 +25,22 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    if (option->value_type == VALUE_TYPE_FLOAT) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %f is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From 58693b5b1aa37e6368220e4e37b972b4cb18d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 02/49] fix: compare the whole 64-bit value in
 choices_int_validator

---
 source/callbacks/validators/choices_validator.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..6d2b7cb 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -46,18 +46,18 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     choices_data_t *choices = &data.choices;
 
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (option->value.as_int64 == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]",
+                            option->value.as_int64, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices", option->value.as_int64);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
-- 
2.43.0


From aa8e4b43a6ee63377993f41103c039267c5d6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 03/49] fix: reject text that is not a number in int and float
 options

'--port abc' was stored as 0 and '--port 12x' as 12, although the
documentation promises "Invalid value 'abc': expected number". Integers
outside the 64-bit range are rejected as well instead of being clamped.
---
 source/callbacks/handlers/float_handler.c | 13 +++++++++++--
 source/callbacks/handlers/int_handler.c   | 15 +++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..2711d1c 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -16,7 +16,16 @@
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    char  *endptr       = NULL;
+    double parsed_value = 0.0;
+
+    if (value != NULL)
+        parsed_value = strtof(value, &endptr);
+    if (value == NULL || endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value ? value : "");
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value.as_float = parsed_value;
     return (ARGUS_SUCCESS);
 }
diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..e955b3f 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -11,11 +11,22 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
+#include <errno.h>
 #include <stdlib.h>
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    char     *endptr       = NULL;
+    long long parsed_value = 0;
+
+    errno = 0;
+    if (value != NULL)
+        parsed_value = strtoll(value, &endptr, 10);
+    if (value == NULL || endptr == value || *endptr != '\0' || errno == ERANGE) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value ? value : "");
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value = (argus_value_t){.as_int64 = parsed_value};
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 865a40abb81ddce6765a7a07376d6dbce918a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 04/49] fix: keep the full double precision of float options

Values were converted with strtof, so '--ratio 0.1' did not compare equal
to 0.1 and V_CHOICE_FLOAT(0.1) rejected it.
---
 source/callbacks/handlers/array_float_handler.c | 2 +-
 source/callbacks/handlers/float_handler.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..e83b700 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -18,7 +18,7 @@
 static void set_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = strtod(value, NULL);
     option->value_count++;
 }
 
diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index 2711d1c..634c9f5 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -20,7 +20,7 @@ int float_handler(argus_t *argus, argus_option_t *option, char *value)
     double parsed_value = 0.0;
 
     if (value != NULL)
-        parsed_value = strtof(value, &endptr);
+        parsed_value = strtod(value, &endptr);
     if (value == NULL || endptr == value || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
                             "Invalid value '%s': expected number", value ? value : "");
-- 
2.43.0


From c8a237be578296008c1baf991ac76034d92e07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 05/49] fix: reject elements that are not numbers in float
 arrays

---
 .../callbacks/handlers/array_float_handler.c  | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index e83b700..6c2206f 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,28 +15,42 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    char  *endptr       = NULL;
+    double parsed_value = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float format: '%s'", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
     adjust_array_size(option);
-    option->value.as_array[option->value_count].as_float = strtod(value, NULL);
+    option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
+    return (ARGUS_SUCCESS);
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(argus, option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(argus, option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
-- 
2.43.0


From 4e78394386f5489c6a3ce423185fdbef86e31243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 06/49] fix: convert integer array elements and range bounds
 exactly

Elements were truncated to int and stored in the low half of an
uninitialised 64-bit slot, a range ending at INT_MAX never terminated, and
'', 'x1-5' and '1-5x' were accepted.
---
 source/callbacks/handlers/array_int_handler.c | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..13ec44f 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,8 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -30,8 +32,8 @@
  */
 typedef struct
 {
-    int start;
-    int end;
+    int64_t start;
+    int64_t end;
 } int_argus_range_t;
 
 const char *search_range_separator(const char *value, const char *separators)
@@ -58,12 +60,18 @@ const char *search_range_separator(const char *value, const char *separators)
  */
 static int parse_int_range(int_argus_range_t *range, const char *value)
 {
+    errno                       = 0;
     const char *range_separator = search_range_separator(value, "-:");
     if (range_separator != NULL) {
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
+        char   *start_end = NULL;
+        char   *end_end   = NULL;
+        int64_t start     = strtoll(value, &start_end, 10);
+        int64_t end       = strtoll(range_separator + 1, &end_end, 10);
+        if (start_end != range_separator || end_end == range_separator + 1 || *end_end != '\0' ||
+            errno == ERANGE)
+            return -1;  // Invalid bounds
         range->start = MIN(start, end);
         range->end   = MAX(start, end);
         return 0;
@@ -71,10 +79,10 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 
     // Not a range, try as a single value
     char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
+    range->start = strtoll(value, &endptr, 10);
 
     // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (endptr == value || *endptr != '\0' || errno == ERANGE)
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
@@ -87,10 +95,12 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start;; i++) {
         adjust_array_size(option);
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
+        if (i >= range->end)
+            break;
     }
 }
 
-- 
2.43.0


From b43a94fbccc312347dc436ca7884534425104b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 07/49] fix: report memory exhaustion when a collection cannot
 grow

When the backing array could not be enlarged, most handlers stored the new
element past its end.
---
 source/callbacks/handlers/array_float_handler.c     | 2 ++
 source/callbacks/handlers/array_int_handler.c       | 8 +++++---
 source/callbacks/handlers/array_string_handler.c    | 2 +-
 source/callbacks/handlers/map_bool_handler.c        | 4 ++++
 source/callbacks/handlers/map_float_handler.c       | 4 ++++
 source/callbacks/handlers/map_int_handler.c         | 4 ++++
 source/callbacks/handlers/map_string_handler.c      | 5 +++++
 source/callbacks/handlers/variadic_float_handler.c  | 2 +-
 source/callbacks/handlers/variadic_int_handler.c    | 2 +-
 source/callbacks/handlers/variadic_string_handler.c | 2 +-
 10 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 6c2206f..285a4c5 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -25,6 +25,8 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
         return ARGUS_ERROR_INVALID_FORMAT;
     }
     adjust_array_size(option);
+    if (option->value_count >= option->value_capacity)
+        return ARGUS_ERROR_MEMORY;
     option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
     return (ARGUS_SUCCESS);
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 13ec44f..800391e 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -93,15 +93,18 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int64_t i = range->start;; i++) {
         adjust_array_size(option);
+        if (option->value_count >= option->value_capacity)
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
         if (i >= range->end)
             break;
     }
+    return (ARGUS_SUCCESS);
 }
 
 /**
@@ -116,8 +119,7 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
-    return (ARGUS_SUCCESS);
+    return (add_range_values(option, &range));
 }
 
 /**
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..d8235a4 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -21,7 +21,7 @@
 static int set_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (option->value_count >= option->value_capacity)  // adjust_array_size failed
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..c83011f 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -97,6 +97,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..81e0423 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -60,6 +60,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..78b465f 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -61,6 +61,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..b7835a6 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -57,6 +57,11 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key doesn't exist, add new entry
 
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            free(value);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..b221c81 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -19,7 +19,7 @@
 static int set_float_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..8f66c08 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -20,7 +20,7 @@
 static int set_int_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)
         return ARGUS_ERROR_MEMORY;
 
     char     *endptr;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..7f794ed 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -21,7 +21,7 @@
 static int set_string_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
-- 
2.43.0


From 6df952dfdb677a213e1a51f3f4c790c420d8c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 08/49] fix: free collections whose last value was rejected

The collection was marked as owned only after every element had been
accepted, so what had been built before a rejected element was leaked.
---
 source/utils/multi_values.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..babbdb3 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -453,6 +453,7 @@ void adjust_array_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
@@ -474,6 +475,7 @@ void adjust_map_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
-- 
2.43.0


From 5810eabe2c04544c8ebb39a01485927d75ec2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 09/49] fix: release the key of a map pair that is not stored

The duplicated key leaked when the pair replaced the value of an existing
key and when its value was invalid.
---
 source/callbacks/handlers/map_bool_handler.c   | 6 ++++--
 source/callbacks/handlers/map_float_handler.c  | 6 ++++--
 source/callbacks/handlers/map_int_handler.c    | 6 ++++--
 source/callbacks/handlers/map_string_handler.c | 9 +++++----
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index c83011f..36df488 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key in '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -94,6 +95,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 81e0423..545d346 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key in '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_float = float_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 78b465f..d35adaf 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key in '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -58,6 +59,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_int64 = int_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index b7835a6..2f008ec 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key in '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value in '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
 
@@ -53,6 +53,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key exists, update value
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
 
-- 
2.43.0


From 2e32c4e2794773e50c7ad82725ff1453a099d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 10/49] fix: do not count one element in a collection given no
 element

'--tags=,' leaves the array unallocated but its count was set to 1, so
reading element 0 dereferenced a null pointer.
---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From 22dd5c201cc58d34b1f09a53ba0b8b86828fdc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 11/49] fix: match long option names of any length

The name was cut to 63 characters before the lookup, so longer options
could not be used and an over-long argument could match a shorter name.
---
 source/core/parsing/option_handle_long.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..9665683 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -8,6 +8,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "argus/errors.h"
@@ -19,17 +20,18 @@
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char *equal_pos   = strchr(arg, '=');
+    char *option_name = safe_strndup(arg, equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg));
+    if (option_name == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '--%s'", arg);
+        return ARGUS_ERROR_MEMORY;
+    }
 
     argus_option_t *option = find_option_by_lname(options, option_name);
     if (option == NULL) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
                             option_name);
+        free(option_name);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -43,9 +45,11 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
                                 "Missing value for option: '--%s'", option_name);
+            free(option_name);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
 
+    free(option_name);
     return (execute_callbacks(argus, option, value));
 }
-- 
2.43.0


From beb0c327bf657118158574b8893afddd5e47884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 12/49] fix: report subcommands nested deeper than the stack

Selecting a ninth nested subcommand wrote past subcommand_stack.
---
 source/core/parsing/option_handle_subcommand.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..5e21979 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,17 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Too many nested subcommands at '%s'", option->name);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From 1d77bc90af196757c2d5a1da2ed0d70461a24358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 13/49] fix: select a subcommand by its exact name whatever the
 order

The exact match was looked for only until a longer command with the same
prefix had been seen, so 'build' was ambiguous after 'build-all'. An empty
argument matched every command as a prefix.
---
 source/core/parsing/parse_args.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..1c51690 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -21,6 +21,14 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
     argus_option_t *subcommand = NULL;
 
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && options[i].name &&
+            strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
+    for (int i = 0; name[0] != '\0' && options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
                 ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND,
@@ -31,10 +39,6 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     options[i].help);
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From 1310ed42eaf616b81bc022b5a717162248939f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 14/49] fix: require whole command names in option paths

'se.port' resolved to the option of the active command 'server'.
---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..5816536 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strncmp(component, command, component_lenght) != 0 ||
+            command[component_lenght] != '\0')
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From 592b93957f05acbc88dff529069d9162774725f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 15/49] fix: order integers without overflow in cmp_value

---
 source/utils/value_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..027ba02 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -60,7 +60,7 @@ int cmp_value(argus_valtype_t type, const argus_value_t a, const argus_value_t b
         case VALUE_TYPE_FLAG:
             return a.as_bool - b.as_bool;
         case VALUE_TYPE_INT:
-            return (int)(a.as_int - b.as_int);
+            return (a.as_int > b.as_int) - (a.as_int < b.as_int);
         case VALUE_TYPE_STRING:
             if (a.as_string == NULL || b.as_string == NULL)
                 return -1;
-- 
2.43.0


From 1ebdf39eb4a1bf5824b146750185ae074cb78c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 16/49] fix: forget the element count when a collection is
 freed

After argus_free (called by a failing argus_parse) the count still told
the accessors that elements of the freed array could be read.
---
 source/utils/value_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 027ba02..443da6a 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,10 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From 2c6ab6e799b8b70dc2d72cef48db0bf18870d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 17/49] fix: enforce FLAG_REQUIRED on options

Only positional arguments were checked, so an option documented as
required could be left out.
---
 source/core/parsing/post_parse_validation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..3dd87a2 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -77,6 +77,12 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             continue;
         }
 
+        if (option->type == TYPE_OPTION && (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED, "Required option missing: '%s'",
+                                option->name);
+            return (ARGUS_ERROR_MISSING_REQUIRED);
+        }
+
         if (option->type == TYPE_POSITIONAL && (option->flags & FLAG_REQUIRED) && !option->is_set) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED,
                                 "Required positional argument missing: '%s'", option->name);
-- 
2.43.0


From 79b744f4d0db4b88fe6891b216e7bc7abd30d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 18/49] fix: record the status of environment loading and
 validation

error_code stayed 0 when a custom validator failed without printing
through ARGUS_PARSING_ERROR, and an exit option set from the environment
made argus_parse fail instead of exiting.
---
 source/api/argus_parse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..f3f74ac 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -37,13 +37,19 @@ int argus_parse(argus_t *argus, int argc, char **argv)
         return (status);
     }
 
-    status = load_env_vars(argus);
+    status            = load_env_vars(argus);
+    argus->error_code = status;
+    if (status == ARGUS_SHOULD_EXIT) {
+        argus_free(argus);
+        exit(ARGUS_SUCCESS);
+    }
     if (status != ARGUS_SUCCESS) {
         argus_free(argus);
         return (status);
     }
 
-    status = post_parse_validation(argus);
+    status            = post_parse_validation(argus);
+    argus->error_code = status;
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From 09df7b580715641b4f58771c748eb16a3b0da9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 19/49] fix: add the prefix to variable names that merely begin
 like it

With the prefix APP, ENV_VAR("APPLE") was read from APPLE instead of
APP_APPLE.
---
 source/core/parsing/load_env_vars.c  | 3 ++-
 source/display/help/help_formatter.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..76c593e 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -35,7 +35,8 @@ static const char *get_env_var_name(argus_t *argus, argus_option_t *option)
         if (option->flags & FLAG_NO_ENV_PREFIX)
             return (option->env_name);
 
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
+        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0 &&
+            (!needs_underscore || option->env_name[prefix_len] == '_'))
             return (option->env_name);
 
         if (needs_underscore) {
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..ba3cdea 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -130,7 +130,8 @@ static const char *get_env_var_name_for_display(argus_t *argus, const argus_opti
         if (option->flags & FLAG_NO_ENV_PREFIX)
             return option->env_name;
 
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
+        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0 &&
+            (!needs_underscore || option->env_name[prefix_len] == '_'))
             return option->env_name;
 
         if (needs_underscore) {
-- 
2.43.0


From 68ebfba3a87c4b8e6523fa234d2c4907878ee39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 20/49] fix: let the environment take precedence over default
 values

A default marks the option as set, so its variable was never read although
the documented order is command line, environment, default.
---
 source/core/parsing/load_env_vars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 76c593e..bd816af 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -74,7 +74,8 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        bool only_default = option->have_default && option->value_count == 0;
+        if (option->is_set && !only_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From d30944994337f2c416e7f0b3c3b78654dee186c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 21/49] fix: do not bring back a collection pointer the handler
 may have moved

When an overriding variable was rejected after its first elements had been
appended, the pointer saved before the call was restored and freed again.
---
 source/core/parsing/load_env_vars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index bd816af..45b0d17 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -92,7 +92,7 @@ static int load_env(argus_t *argus, argus_option_t *options)
         //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
         if (status != ARGUS_SUCCESS) {
-            if (was_set) {
+            if (was_set && !option->is_allocated) {
                 option->is_set = was_set;
                 option->value  = old_value;
             }
-- 
2.43.0


From b84fbfaf5badb22287ad2450d5f817492fbe50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 22/49] fix: restore the stream that is redirected in
 stream_cleanup_all

Slot 1 (stdout) was restored as stderr and slot 0 (stdin) as stdout.
---
 source/utils/stream.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index cc22e04..c2ab2ea 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -189,9 +189,7 @@ void stream_cleanup_all(void)
 {
     for (int i = 0; i < MAX_STREAMS; i++) {
         stream_info_t *info = &streams[i];
-        if (info->is_active) {
-            int fd = (i == 0) ? STDOUT_FILENO : STDERR_FILENO;
-            stream_restore(fd);
-        }
+        if (info->is_active)
+            stream_restore(i);
     }
 }
-- 
2.43.0


From 10e7ff40456b1a29930bb9169d437c00eb017ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 23/49] fix: wrap help text when the description column fills
 the line

With a line width equal to the description column plus two the loop never
advanced; below that the width wrapped around and nothing was wrapped.
---
 source/display/help/help_formatter.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index ba3cdea..c337fe6 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -171,10 +171,12 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     size_t line_start  = 0;
     size_t current_pos = 0;
     size_t last_space  = 0;
+    // Consider "- " prefix
+    size_t text_width = line_width > indent + 2 ? line_width - indent - 2 : 1;
 
     while (current_pos < text_len) {
         while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
+               current_pos - line_start < text_width &&
                text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
@@ -188,7 +190,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos - line_start >= text_width) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From b0a21116e9c211a522d6d0f5dbbfd17f914ef497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 24/49] fix: show every attribute of an option in its
 description

Four attributes need 47 bytes; those that did not fit in 32 were dropped.
---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index c337fe6..ebc907a 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -376,7 +376,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From 73c875fad03ab291c263a41a58b68dc51a7e12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 25/49] fix: show both bounds of a range in full

Two 64-bit bounds take up to 47 characters and were cut at 31.
---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..d60514a 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..013cbdf 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 3186e1d..6a51a34 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -49,10 +49,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
-- 
2.43.0


From b2c8cfe1b7f64d371f8817b4017d677bf3ce2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 26/49] fix: accept collection flags on variadic positionals

The mask of single positionals was applied to them as well, so the flags
the variadic mask allows were reported as invalid.
---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..4ec9698 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -143,9 +143,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From 9b9c8746463b8985cd0ef34b7e6d916b814a919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 27/49] fix: survive memory exhaustion when grouping options
 for help

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..f474984 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From 461561bd9d0476b51368ace4209e18d416238da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 28/49] fix: leave hidden subcommands out of the help

---
 source/display/help/help_organizer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index f474984..49e8512 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -104,6 +104,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From a101d9a99f34f7f68d5b9067d61826fccc594a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 29/49] fix: describe every error code in argus_strerror

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..3c65e79 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -16,6 +16,8 @@ const char *argus_strerror(argus_error_type_t error)
             return "Success";
         case ARGUS_SHOULD_EXIT:
             return "Should exit";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option structure";
         case ARGUS_ERROR_DUPLICATE_OPTION:
             return "Duplicate option";
         case ARGUS_ERROR_INVALID_HANDLER:
@@ -46,8 +48,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Invalid choice";
         case ARGUS_ERROR_INVALID_RANGE:
             return "Invalid range";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
         case ARGUS_ERROR_NO_COMMAND:
             return "No command";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Out of memory";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported operation";
         case ARGUS_ERROR_INVALID_VALUE:
             return "Invalid value";
         case ARGUS_ERROR_MALFORMED_OPTION:
-- 
2.43.0


From 6aeb57e0da4963debd22d5682fe96b32b8c319e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 30/49] fix: show 64-bit integer defaults in full

---
 source/display/help/help_formatter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index ebc907a..457cced 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -272,8 +273,8 @@ static char *append_default_info(char *description, const argus_option_t *option
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%" PRId64 ")",
+                     option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-- 
2.43.0


From 02fed2b835b8ace30b19ae7a8b0b6a14a855bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 31/49] fix: reject integers outside the 64-bit range in maps
 and variadic positionals

They were silently clamped to the largest 64-bit value.
---
 source/callbacks/handlers/map_int_handler.c      | 6 ++++--
 source/callbacks/handlers/variadic_int_handler.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index d35adaf..80ca845 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -42,11 +43,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
+    char *endptr;
+    errno             = 0;
     int64_t int_value = strtoll(value, &endptr, 10);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (*value == '\0' || *endptr != '\0' || errno == ERANGE) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 8f66c08..77014b7 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -10,6 +10,7 @@
 #include <stdint.h>
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -23,10 +24,11 @@ static int set_int_value(argus_option_t *option, char *value)
     if (option->value_count >= option->value_capacity)
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
+    char *endptr;
+    errno                  = 0;
     long long parsed_value = strtoll(value, &endptr, 10);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || errno == ERANGE)
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From e8667230b25deec0ac8e541b9fed2a3f9cf855eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 32/49] fix: keep a second '--' as a positional argument

Everything after the option terminator is positional, but a further '--'
was dropped.
---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 1c51690..cc4a015 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -55,7 +55,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From e26f1d12c99cdc149a915b3fba0388373261a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 33/49] fix: accept negative numbers for variadic numeric
 positionals

Only single numeric positionals were recognised as expecting a number.
---
 source/core/parsing/parse_args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index cc4a015..d1dbd89 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -81,7 +81,9 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt && (pos_opt->value_type &
+                                (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                 VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From 92b847db5d68877107005fe9c4c635d374f3e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 34/49] fix: honour the boolean value of a flag's environment
 variable

'APP_VERBOSE=false' switched the flag on, although the documentation lists
it among the values that leave it off.
---
 source/callbacks/handlers/flag_handler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/flag_handler.c b/source/callbacks/handlers/flag_handler.c
index 0f1c029..bfc3d60 100644
--- a/source/callbacks/handlers/flag_handler.c
+++ b/source/callbacks/handlers/flag_handler.c
@@ -9,12 +9,13 @@
 
 #include "argus/errors.h"
 #include "argus/internal/utils.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
-    UNUSED(argus);
-    UNUSED(arg);
+    if (arg != NULL)  // Value of an environment variable
+        return bool_handler(argus, option, arg);
     option->value.as_bool = true;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 4d972bf36618cee4eab954e2b40bb1e9cb8bdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 35/49] fix: reject an absent text in choices_string_validator

---
 source/callbacks/validators/choices_validator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index 6d2b7cb..bd2280e 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -24,6 +24,10 @@ int choices_string_validator(argus_t *argus, void *option_ptr, validator_data_t
     argus_option_t *option  = (argus_option_t *)option_ptr;
     choices_data_t *choices = &data.choices;
 
+    if (option->value.as_string == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Value is NULL");
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
     for (size_t i = 0; i < choices->count; i++) {
         if (strcmp(option->value.as_string, choices->as_strings[i]) == 0)
             return ARGUS_SUCCESS;
-- 
2.43.0


From f8b51b531e462c51b0d7716619e99dd2560ed5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 36/49] fix: treat equal infinities as duplicates in unique
 float arrays and maps

---
 source/utils/multi_values.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index babbdb3..6926d2e 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -204,7 +204,8 @@ size_t make_float_array_unique(argus_value_t *array, size_t count)
 
         for (size_t j = 0; j < unique_count; j++) {
             // Use small epsilon for float comparison
-            if (fabs(array[i].as_float - array[j].as_float) < 0.0000001) {
+            if (array[i].as_float == array[j].as_float ||
+                fabs(array[i].as_float - array[j].as_float) < 0.0000001) {
                 is_duplicate = true;
                 break;
             }
@@ -301,7 +302,8 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
                 case VALUE_TYPE_FLOAT:
                 case VALUE_TYPE_MAP_FLOAT:
                     is_duplicate =
-                        (fabs(map[i].value.as_float - map[j].value.as_float) < 0.0000001);
+                        (map[i].value.as_float == map[j].value.as_float ||
+                         fabs(map[i].value.as_float - map[j].value.as_float) < 0.0000001);
                     break;
 
                 case VALUE_TYPE_BOOL:
-- 
2.43.0


From 37ccc40538fbd82f011584fe7102faf5585c6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 37/49] fix: do not resize a collection's default value, which
 belongs to the caller

---
 source/utils/multi_values.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 6926d2e..23c41b9 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -448,7 +448,8 @@ void apply_map_flags(argus_option_t *option)
 
 void adjust_array_size(argus_option_t *option)
 {
-    if (option->value.as_array == NULL) {
+    // A value that is not allocated is a default of the caller: never resized
+    if (option->value.as_array == NULL || !option->is_allocated) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
@@ -470,7 +471,8 @@ void adjust_array_size(argus_option_t *option)
 
 void adjust_map_size(argus_option_t *option)
 {
-    if (option->value.as_map == NULL) {
+    // A value that is not allocated is a default of the caller: never resized
+    if (option->value.as_map == NULL || !option->is_allocated) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
-- 
2.43.0


From b3f3aae6c3aab9686da7e785415e0aa052e0dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 38/49] fix: a collection that is given no element does not own
 its default value

---
 source/callbacks/handlers/array_float_handler.c  | 1 -
 source/callbacks/handlers/array_int_handler.c    | 1 -
 source/callbacks/handlers/array_string_handler.c | 1 -
 source/callbacks/handlers/map_bool_handler.c     | 1 -
 source/callbacks/handlers/map_float_handler.c    | 1 -
 source/callbacks/handlers/map_int_handler.c      | 1 -
 source/callbacks/handlers/map_string_handler.c   | 1 -
 7 files changed, 7 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 285a4c5..6494b4f 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -55,7 +55,6 @@ int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_array_flags(option);
-    option->is_allocated = true;
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 800391e..4c5dd2e 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -154,7 +154,6 @@ int array_int_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_array_flags(option);
-    option->is_allocated = true;
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index d8235a4..dbc6a76 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -58,7 +58,6 @@ int array_string_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_array_flags(option);
-    option->is_allocated = true;
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 36df488..d7a756e 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -145,7 +145,6 @@ int map_bool_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_map_flags(option);
-    option->is_allocated = true;
     return ARGUS_SUCCESS;
 }
 
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 545d346..98ca978 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -107,7 +107,6 @@ int map_float_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_map_flags(option);
-    option->is_allocated = true;
     return ARGUS_SUCCESS;
 }
 
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 80ca845..8c22503 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -110,7 +110,6 @@ int map_int_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_map_flags(option);
-    option->is_allocated = true;
     return ARGUS_SUCCESS;
 }
 
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index 2f008ec..c23e94e 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -105,7 +105,6 @@ int map_string_handler(argus_t *argus, argus_option_t *option, char *value)
     }
 
     apply_map_flags(option);
-    option->is_allocated = true;
     return ARGUS_SUCCESS;
 }
 
-- 
2.43.0


From ffa4284b464e02544e0d3bf9a511be90ca2fe108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 39/49] fix: reading a map without a key reports an invalid key
 instead of crashing

---
 source/api/argus_value_access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/api/argus_value_access.c b/source/api/argus_value_access.c
index 4241467..e30b447 100644
--- a/source/api/argus_value_access.c
+++ b/source/api/argus_value_access.c
@@ -83,7 +83,7 @@ argus_value_t argus_map_get(argus_t *argus, const char *option_path, const char
     }
 
     // Look for the key in the map
-    for (size_t i = 0; i < option->value_count; ++i) {
+    for (size_t i = 0; key != NULL && i < option->value_count; ++i) {
         if (option->value.as_map[i].key && strcmp(option->value.as_map[i].key, key) == 0) {
             return option->value.as_map[i].value;
         }
-- 
2.43.0


From 98ca4ca08af623c919112981012c39c74dbaee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 40/49] fix: apply the placement rules to optional and variadic
 positionals, too

---
 source/core/validation/validate_structure.c | 31 +++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..577d302 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -31,21 +31,24 @@ int validate_placement(argus_option_t *options)
 
         if (option->type == TYPE_SUBCOMMAND)
             has_subcommands = true;
-        if (option->type == TYPE_POSITIONAL && !(option->flags & FLAG_REQUIRED))
-            has_optional_positional = true;
-        else if (option->type == TYPE_POSITIONAL && (option->value_type & VALUE_TYPE_VARIADIC)) {
-            if (has_positional_many == true) {
-                ARGUS_STRUCT_ERROR(option, "Only one POSITIONAL_MANY argument is allowed");
-                status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            has_positional_many = true;
-        } else if (option->type == TYPE_POSITIONAL) {
-            if (has_positional_many == true) {
-                ARGUS_STRUCT_ERROR(
-                    option, "POSITIONAL argument must be placed before POSITIONAL_MANY argument");
-                status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
+        if (option->type == TYPE_POSITIONAL) {
             has_positional = true;
+            if (option->value_type & VALUE_TYPE_VARIADIC) {
+                if (has_positional_many == true) {
+                    ARGUS_STRUCT_ERROR(option, "Only one POSITIONAL_MANY argument is allowed");
+                    status = ARGUS_ERROR_MALFORMED_OPTION;
+                }
+                has_positional_many = true;
+            } else {
+                if (has_positional_many == true) {
+                    ARGUS_STRUCT_ERROR(
+                        option,
+                        "POSITIONAL argument must be placed before POSITIONAL_MANY argument");
+                    status = ARGUS_ERROR_MALFORMED_OPTION;
+                }
+                if (!(option->flags & FLAG_REQUIRED))
+                    has_optional_positional = true;
+            }
         }
         if (option->type == TYPE_OPTION && option->name && strcmp(option->name, "help") == 0)
             has_helper = true;
-- 
2.43.0


From 5fc0bc9d8a100f8f359dd487b27d95a72b1a754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 41/49] fix: text buffered before a redirection goes to the
 original stream

---
 source/utils/stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index c2ab2ea..bcd10c9 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -60,6 +60,12 @@ int stream_redirect(int fd)
     if (info->is_active)
         return STREAM_ERROR_ALREADY_ACTIVE;
 
+    // Text buffered before the redirection belongs to the original stream
+    if (fd == STDOUT_FILENO)
+        fflush(stdout);
+    else if (fd == STDERR_FILENO)
+        fflush(stderr);
+
     if (pipe(info->pipe_fds) != 0)
         return STREAM_ERROR_PIPE_FAILED;
 
-- 
2.43.0


From 11e8551a914956449bbfd1af4cedc010847c600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 42/49] fix: a redirection whose pipe cannot be made
 non-blocking fails cleanly

---
 source/utils/stream.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index bcd10c9..1a0f94e 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -69,6 +69,14 @@ int stream_redirect(int fd)
     if (pipe(info->pipe_fds) != 0)
         return STREAM_ERROR_PIPE_FAILED;
 
+    // The pipe must never block a read: it is emptied while still open for writing
+    int flags = fcntl(info->pipe_fds[0], F_GETFL);
+    if (flags == -1 || fcntl(info->pipe_fds[0], F_SETFL, flags | O_NONBLOCK) == -1) {
+        close(info->pipe_fds[0]);
+        close(info->pipe_fds[1]);
+        return STREAM_ERROR_PIPE_FAILED;
+    }
+
     info->backup_fd = dup(fd);
     if (info->backup_fd == -1) {
         close(info->pipe_fds[0]);
@@ -86,9 +94,6 @@ int stream_redirect(int fd)
     close(info->pipe_fds[1]);
     info->pipe_fds[1] = -1;
 
-    int flags = fcntl(info->pipe_fds[0], F_GETFL);
-    fcntl(info->pipe_fds[0], F_SETFL, flags | O_NONBLOCK);
-
     info->fd        = fd;
     info->is_active = 1;
 
-- 
2.43.0


From 285aa70ae8d1328efcdbcbf98270ee463766bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 43/49] fix: a help text that exactly fills a line is not
 broken before its end

---
 source/display/help/help_formatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 457cced..aab9482 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -191,7 +191,9 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= text_width) {
+        } else if (current_pos < text_len) {
+            if (text[current_pos] == ' ')
+                last_space = current_pos;
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From 9157c56075f79db7a8bbc47e083f2156a6708677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 44/49] fix: the value hint of a collection names the type of
 its elements

---
 source/display/help/help_formatter.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index aab9482..d56cac6 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -37,12 +37,22 @@ const char *get_base_type_name(argus_valtype_t type)
 {
     switch (type) {
         case VALUE_TYPE_INT:
+        case VALUE_TYPE_ARRAY_INT:
+        case VALUE_TYPE_MAP_INT:
+        case VALUE_TYPE_VARIADIC_INT:
             return "NUM";
         case VALUE_TYPE_STRING:
+        case VALUE_TYPE_ARRAY_STRING:
+        case VALUE_TYPE_MAP_STRING:
+        case VALUE_TYPE_VARIADIC_STRING:
             return "STR";
         case VALUE_TYPE_FLOAT:
+        case VALUE_TYPE_ARRAY_FLOAT:
+        case VALUE_TYPE_MAP_FLOAT:
+        case VALUE_TYPE_VARIADIC_FLOAT:
             return "FLOAT";
         case VALUE_TYPE_BOOL:
+        case VALUE_TYPE_MAP_BOOL:
             return "BOOL";
         case VALUE_TYPE_FLAG:
             return "FLAG";
-- 
2.43.0


From 7fb4b5b23e217618f350844b8031d8ae77ab03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 45/49] fix: the help of a positional states its only
 restriction

---
 source/display/help/help_formatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index d56cac6..636539a 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -318,7 +318,9 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
         return description;
 
     bool validator_used_in_hint = false;
-    if (has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
+    // Only the name of a value option shows a hint
+    if (option->type == TYPE_OPTION && option->value_type != VALUE_TYPE_FLAG &&
+        has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0


From d5b3c48b58cc8ec42bc881bebe40ce3906d4dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 46/49] fix: the help states the text form of a custom
 restriction

---
 source/display/help/help_formatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 636539a..ae26447 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -351,6 +351,8 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
                     } else if (validator->func == count_validator) {
                         snprintf(validator_info, sizeof(validator_info), " (count: %s)",
                                  validator_desc);
+                    } else {
+                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
                     }
 
                     if (validator_info[0] != '\0') {
-- 
2.43.0


From 5a9e57530a003f07e188ae83938d88de592837cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 47/49] fix: a description keeps its closing parenthesis when
 memory runs out

---
 source/display/help/help_formatter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index ae26447..9f3300a 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -376,15 +376,18 @@ static char *append_env_info(char *description, argus_t *argus, const argus_opti
 
     char   env_buf[256] = {0};
     size_t desc_len     = strlen(description);
+    bool   merge        = desc_len > 0 && description[desc_len - 1] == ')';
 
-    if (desc_len > 0 && description[desc_len - 1] == ')') {
+    if (merge) {
         snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
-        if (desc_len > 0)
-            description[desc_len - 1] = '\0';
+        description[desc_len - 1] = '\0';
     } else
         snprintf(env_buf, sizeof(env_buf), " (env: %s)", env_name);
 
-    return append_to_description(description, env_buf);
+    char *result = append_to_description(description, env_buf);
+    if (merge && result == description)
+        description[desc_len - 1] = ')';
+    return result;
 }
 
 // Helper function to append flag information
-- 
2.43.0


From 96d95ee568b7ae773b51df817d6f2b405e5bca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:51 +0000
Subject: [PATCH 48/49] fix: store floating-point defaults as doubles

---
 includes/argus/options.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..ade4cae 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,19 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+/* A floating-point default is stored as a double, any other one as an integer or pointer */
+#define ARGUS_DEFAULT_FLOAT(val) \
+    _Generic((val), float: (val), double: (val), long double: (val), default: 0.0)
+#define ARGUS_DEFAULT_RAW(val) \
+    _Generic((val), float: 0, double: 0, long double: 0, default: (val))
+#define ARGUS_DEFAULT_VALUE(val) \
+    _Generic((val), \
+        float: (argus_value_t){ .as_float = (double)ARGUS_DEFAULT_FLOAT(val) }, \
+        double: (argus_value_t){ .as_float = (double)ARGUS_DEFAULT_FLOAT(val) }, \
+        long double: (argus_value_t){ .as_float = (double)ARGUS_DEFAULT_FLOAT(val) }, \
+        default: (argus_value_t){ .raw = (uintptr_t)ARGUS_DEFAULT_RAW(val) })
+#define DEFAULT(val)            .value = ARGUS_DEFAULT_VALUE(val),                           \
+                                .default_value = ARGUS_DEFAULT_VALUE(val),                   \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From dcb7fc537109ca378aa37a390998f055edd16a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:29 +0000
Subject: [PATCH 49/49] fix: state floating-point choices in full in the help

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index bd2280e..0cfd735 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -129,7 +129,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%.12g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0

