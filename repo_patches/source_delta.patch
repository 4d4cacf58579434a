From be63b39e7b079ecc216d7cf9a90e6a220d9f68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 01/50] fix: prefer exact subcommand names and never match an
 empty word

---
 source/core/parsing/parse_args.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..0158633 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -20,6 +20,18 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
 {
     argus_option_t *subcommand = NULL;
 
+    *result = NULL;
+    if (name[0] == '\0')
+        return ARGUS_SUCCESS;
+
+    // An exact name always wins over names it is a prefix of
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
@@ -31,10 +43,6 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     options[i].help);
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From 19c8324f5d14bcee03f816de61220da870de726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 02/50] fix: refuse subcommands nested deeper than the command
 stack

---
 source/core/parsing/option_handle_subcommand.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..1877880 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,19 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Subcommand '%s' exceeds the maximum nesting depth (%d)", option->name,
+                            MAX_SUBCOMMAND_DEPTH);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
+
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From df9dcafcd90385b6b363872d2773f0eb4ad902ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 03/50] fix: treat a lone '-' as a positional instead of
 dropping it

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 0158633..f8ec34c 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -80,7 +80,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From 0e1ad314bc78885688816fa1d1911d610eacb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 04/50] fix: keep a second '--' as a positional

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index f8ec34c..e3462c6 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -59,7 +59,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From 1a889976a2e06f39057eedac87a8ef358e9a1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 05/50] fix: accept negative numbers for multi-value numeric
 positionals

---
 source/core/parsing/parse_args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e3462c6..69a83cd 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -85,7 +85,9 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt &&
+                    (pos_opt->value_type & (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                            VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From 67e334a54b9164f0fb8e03c2b680c9b26c8cce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 06/50] fix: refuse a value attached to a flag with '='

---
 source/core/parsing/option_handle_long.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..9c47b29 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -33,6 +33,12 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
+    if (option->value_type == VALUE_TYPE_FLAG && equal_pos != NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT,
+                            "Option '--%s' does not take a value", option_name);
+        return ARGUS_ERROR_INVALID_ARGUMENT;
+    }
+
     char *value = NULL;
     if (option->value_type != VALUE_TYPE_FLAG) {
         if (equal_pos != NULL) {  // Format "--option=value"
-- 
2.43.0


From 4b95db6402d6ab0648cf21c7b11e7f994336df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 07/50] fix: do not truncate long option names to 63 characters

---
 source/core/parsing/option_handle_long.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index 9c47b29..2502280 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -8,6 +8,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "argus/errors.h"
@@ -19,23 +20,25 @@
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char *equal_pos   = strchr(arg, '=');
+    int   name_len    = (int)(equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg));
+    char *option_name = safe_strndup(arg, name_len);
+    if (option_name == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '--%s'", arg);
+        return ARGUS_ERROR_MEMORY;
+    }
 
     argus_option_t *option = find_option_by_lname(options, option_name);
+    free(option_name);
     if (option == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
-                            option_name);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%.*s'",
+                            name_len, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
     if (option->value_type == VALUE_TYPE_FLAG && equal_pos != NULL) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT,
-                            "Option '--%s' does not take a value", option_name);
+                            "Option '--%.*s' does not take a value", name_len, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -48,7 +51,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%.*s'", name_len, arg);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
-- 
2.43.0


From 78adf1269ac204f43f02d1d9e3504cc7ce53cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 08/50] fix: reject malformed and out-of-range integer and
 float values

---
 includes/argus/internal/utils.h           |  3 ++
 source/callbacks/handlers/float_handler.c | 10 ++++--
 source/callbacks/handlers/int_handler.c   | 10 ++++--
 source/utils/strings.c                    | 43 +++++++++++++++++++++++
 4 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..5cb2b5a 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -12,6 +12,7 @@
 
 #include <stdbool.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -57,6 +58,8 @@ char  *starts_with(const char *prefix, const char *str);
 char **split(const char *str, const char *charset);
 void   free_split(char **split);
 int    putnchar(char c, size_t n);
+bool   str_to_int64(const char *str, int64_t *result);
+bool   str_to_double(const char *str, double *result);
 
 /**
  * Multi_value utility functions
diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..ed93824 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -16,7 +16,13 @@
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    double parsed;
+
+    if (!str_to_double(value, &parsed)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Invalid float value '%s' for '%s'",
+                            value ? value : "", option->name);
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
+    option->value.as_float = parsed;
     return (ARGUS_SUCCESS);
 }
diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..bbc4734 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -15,7 +15,13 @@
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    int64_t parsed;
+
+    if (!str_to_int64(value, &parsed)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Invalid integer value '%s' for '%s'",
+                            value ? value : "", option->name);
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
+    option->value = (argus_value_t){.as_int64 = parsed};
     return (ARGUS_SUCCESS);
 }
diff --git a/source/utils/strings.c b/source/utils/strings.c
index 6be4255..b9e4e5f 100644
--- a/source/utils/strings.c
+++ b/source/utils/strings.c
@@ -10,8 +10,11 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include "argus/internal/cross_platform.h"
+#include <errno.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -126,3 +129,43 @@ int putnchar(char c, size_t n)
         putchar(c);
     return (int)n;
 }
+
+/**
+ * Converts a whole string to a 64-bit decimal integer.
+ * @param str The string to convert.
+ * @param result Where to store the value.
+ * @return false if the string is not an integer or is out of range.
+ */
+bool str_to_int64(const char *str, int64_t *result)
+{
+    char *end = NULL;
+
+    if (str == NULL || *str == '\0')
+        return (false);
+    errno           = 0;
+    long long value = strtoll(str, &end, 10);
+    if (errno == ERANGE || *end != '\0')
+        return (false);
+    *result = value;
+    return (true);
+}
+
+/**
+ * Converts a whole string to a double.
+ * @param str The string to convert.
+ * @param result Where to store the value.
+ * @return false if the string is not a number or is too large.
+ */
+bool str_to_double(const char *str, double *result)
+{
+    char *end = NULL;
+
+    if (str == NULL || *str == '\0')
+        return (false);
+    errno        = 0;
+    double value = strtod(str, &end);
+    if (*end != '\0' || (errno == ERANGE && fabs(value) == HUGE_VAL))
+        return (false);
+    *result = value;
+    return (true);
+}
-- 
2.43.0


From 4518c397c36702c9af4573d41f29cd010765c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 09/50] fix: do not count a missing element in an empty
 collection

---
 source/core/parsing/execute_callbacks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..e184e0e 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,9 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    // Collections count their own elements and may legitimately be empty
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From 25563ec7f509bbdd4ddf7f9e5d0b1a36865a6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 10/50] fix: free map keys that are not stored

---
 source/callbacks/handlers/map_bool_handler.c   | 2 ++
 source/callbacks/handlers/map_float_handler.c  | 2 ++
 source/callbacks/handlers/map_int_handler.c    | 2 ++
 source/callbacks/handlers/map_string_handler.c | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..65769d6 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -93,6 +94,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..332be8a 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -56,6 +57,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..a8fb8c3 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..e2625ba 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -51,6 +51,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     if (key_index >= 0) {
         // Key exists, update value
+        free(key);
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
     } else {
-- 
2.43.0


From beaab0b0d4873358787e24697015b60cc7089a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 11/50] fix: reset the element count when a value is freed

---
 source/utils/value_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..07371ff 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,10 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From 22be5127abdfb799d8451c2bcfed71cb8e259cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 12/50] fix: report failed allocations while storing collection
 values

---
 includes/argus/internal/utils.h               |  4 +--
 .../callbacks/handlers/array_float_handler.c  | 26 +++++++++++++------
 source/callbacks/handlers/array_int_handler.c | 11 +++++---
 .../callbacks/handlers/array_string_handler.c |  3 +--
 source/callbacks/handlers/map_bool_handler.c  | 11 +++++---
 source/callbacks/handlers/map_float_handler.c | 11 +++++---
 source/callbacks/handlers/map_int_handler.c   | 11 +++++---
 .../callbacks/handlers/map_string_handler.c   | 16 ++++++++----
 .../handlers/variadic_float_handler.c         |  5 ++--
 .../callbacks/handlers/variadic_int_handler.c |  5 ++--
 .../handlers/variadic_string_handler.c        |  3 +--
 source/utils/multi_values.c                   | 18 ++++++++-----
 12 files changed, 81 insertions(+), 43 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index 5cb2b5a..6029e36 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -65,8 +65,8 @@ bool   str_to_double(const char *str, double *result);
  * Multi_value utility functions
  */
 #define MULTI_VALUE_INITIAL_CAPACITY 8
-void adjust_array_size(argus_option_t *option);
-void adjust_map_size(argus_option_t *option);
+bool adjust_array_size(argus_option_t *option);
+bool adjust_map_size(argus_option_t *option);
 int  map_find_key(argus_option_t *option, const char *key);
 void apply_array_flags(argus_option_t *option);
 void apply_map_flags(argus_option_t *option);
diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..d3ce813 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,28 +15,38 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
+    if (!adjust_array_size(option)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     option->value.as_array[option->value_count].as_float = strtof(value, NULL);
     option->value_count++;
+    return ARGUS_SUCCESS;
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(argus, option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(argus, option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..6e96b77 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -85,13 +85,15 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static bool add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int i = range->start; i <= range->end; i++) {
-        adjust_array_size(option);
+        if (!adjust_array_size(option))
+            return false;
         option->value.as_array[option->value_count].as_int = i;
         option->value_count++;
     }
+    return true;
 }
 
 /**
@@ -106,7 +108,10 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
+    if (!add_range_values(option, &range)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..2fd15f8 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 65769d6..45048a9 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -98,7 +98,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 332be8a..f74cc3c 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -61,7 +61,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index a8fb8c3..be0a208 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -62,7 +62,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index e2625ba..04fd58e 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
 
@@ -57,7 +57,13 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
 
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            free(value);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..5fab3b4 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -18,8 +18,7 @@
 
 static int set_float_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
@@ -37,7 +36,7 @@ int variadic_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_float_value(option, value);
     if (status != ARGUS_SUCCESS) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
+        ARGUS_PARSING_ERROR(argus, status,
                             "Invalid float value '%s' for positional argument '%s'", value,
                             option->name);
         return status;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..3188c2c 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -19,8 +19,7 @@
 
 static int set_int_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char     *endptr;
@@ -38,7 +37,7 @@ int variadic_int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_int_value(option, value);
     if (status != ARGUS_SUCCESS) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
+        ARGUS_PARSING_ERROR(argus, status,
                             "Invalid integer value '%s' for positional argument '%s'", value,
                             option->name);
         return status;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..a023e79 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_string_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..60dbed2 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -444,46 +444,52 @@ void apply_map_flags(argus_option_t *option)
     }
 }
 
-void adjust_array_size(argus_option_t *option)
+bool adjust_array_size(argus_option_t *option)
 {
     if (option->value.as_array == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
             option->value_capacity = 0;
-            return;
+            return false;
         }
+        // The storage belongs to the option as soon as it exists
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_array, option->value_capacity * sizeof(argus_value_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return false;
         }
         option->value.as_array = new;
     }
+    return true;
 }
 
-void adjust_map_size(argus_option_t *option)
+bool adjust_map_size(argus_option_t *option)
 {
     if (option->value.as_map == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
             option->value_capacity = 0;
-            return;
+            return false;
         }
+        // The storage belongs to the option as soon as it exists
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_map, option->value_capacity * sizeof(argus_pair_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return false;
         }
         option->value.as_map = new;
     }
+    return true;
 }
 
 int map_find_key(argus_option_t *option, const char *key)
-- 
2.43.0


From 346fd0877736eb2a704f30507a76947b367cf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 13/50] fix: reject malformed float elements and out-of-range
 collection numbers

---
 source/callbacks/handlers/array_float_handler.c    | 8 +++++++-
 source/callbacks/handlers/map_float_handler.c      | 5 ++---
 source/callbacks/handlers/map_int_handler.c        | 5 ++---
 source/callbacks/handlers/variadic_float_handler.c | 6 ++----
 source/callbacks/handlers/variadic_int_handler.c   | 6 ++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index d3ce813..585ec32 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -17,11 +17,17 @@
 
 static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    double float_value;
+
+    if (!str_to_double(value, &float_value)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float format: '%s'", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
     if (!adjust_array_size(option)) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
         return ARGUS_ERROR_MEMORY;
     }
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = float_value;
     option->value_count++;
     return ARGUS_SUCCESS;
 }
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index f74cc3c..1078194 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -41,11 +41,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to float
-    char  *endptr;
-    double float_value = strtod(value, &endptr);
+    double float_value;
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (!str_to_double(value, &float_value)) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index be0a208..e00ddf2 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -42,11 +42,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
-    int64_t int_value = strtoll(value, &endptr, 10);
+    int64_t int_value;
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (!str_to_int64(value, &int_value)) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index 5fab3b4..1482857 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -21,10 +21,8 @@ static int set_float_value(argus_option_t *option, char *value)
     if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
-    char  *endptr;
-    double parsed_value = strtod(value, &endptr);
-
-    if (*endptr != '\0' || endptr == value)
+    double parsed_value;
+    if (!str_to_double(value, &parsed_value))
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_float = parsed_value;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 3188c2c..7960fd4 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -22,10 +22,8 @@ static int set_int_value(argus_option_t *option, char *value)
     if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
-    long long parsed_value = strtoll(value, &endptr, 10);
-
-    if (*endptr != '\0' || endptr == value)
+    int64_t parsed_value;
+    if (!str_to_int64(value, &parsed_value))
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From 61c71201ad9bc9d7fb91ffd7aa86b080e29aaba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 14/50] fix: reject malformed and out-of-range integer array
 elements

---
 source/callbacks/handlers/array_int_handler.c | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6e96b77..7dd4a67 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,8 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -48,6 +50,21 @@ const char *search_range_separator(const char *value, const char *separators)
     return NULL;
 }
 
+/**
+ * Parse one integer, which must end exactly at end
+ */
+static bool parse_int(int *result, const char *value, const char *end)
+{
+    char *endptr = NULL;
+
+    errno       = 0;
+    long number = strtol(value, &endptr, 10);
+    if (endptr == value || endptr != end || errno == ERANGE || number < INT_MIN || number > INT_MAX)
+        return false;
+    *result = (int)number;
+    return true;
+}
+
 /**
  * Parse a string into an integer range
  * Formats supported: "42", "-42", "1-5", "-5-5", "-10--5"
@@ -58,23 +75,25 @@ const char *search_range_separator(const char *value, const char *separators)
  */
 static int parse_int_range(int_argus_range_t *range, const char *value)
 {
+    const char *value_end       = value + strlen(value);
     const char *range_separator = search_range_separator(value, "-:");
     if (range_separator != NULL) {
+        int start;
+        int end;
+
+        if (!parse_int(&start, value, range_separator) ||
+            !parse_int(&end, range_separator + 1, value_end))
+            return -1;  // Invalid integer format
+
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
         range->start = MIN(start, end);
         range->end   = MAX(start, end);
         return 0;
     }
 
     // Not a range, try as a single value
-    char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
-
-    // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (!parse_int(&range->start, value, value_end))
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
@@ -87,10 +106,10 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static bool add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (long long i = range->start; i <= range->end; i++) {
         if (!adjust_array_size(option))
             return false;
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int = (int)i;
         option->value_count++;
     }
     return true;
-- 
2.43.0


From eb8e700c3d41f6d80af65bce8083867859093f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 15/50] fix: describe every error code

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..5e79269 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -16,6 +16,8 @@ const char *argus_strerror(argus_error_type_t error)
             return "Success";
         case ARGUS_SHOULD_EXIT:
             return "Should exit";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option definitions";
         case ARGUS_ERROR_DUPLICATE_OPTION:
             return "Duplicate option";
         case ARGUS_ERROR_INVALID_HANDLER:
@@ -46,8 +48,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Invalid choice";
         case ARGUS_ERROR_INVALID_RANGE:
             return "Invalid range";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
         case ARGUS_ERROR_NO_COMMAND:
             return "No command";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Memory allocation failed";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported operation";
         case ARGUS_ERROR_INVALID_VALUE:
             return "Invalid value";
         case ARGUS_ERROR_MALFORMED_OPTION:
-- 
2.43.0


From 74200295a11cd8d75f1b42d7c5c5476a6d31afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 16/50] fix: give every failed parse its error code and a
 diagnostic

---
 source/api/argus_parse.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..5ce11d1 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -18,14 +18,29 @@
 
 void argus_free(argus_t *argus);
 
-int argus_parse(argus_t *argus, int argc, char **argv)
+static void exit_if_requested(argus_t *argus, int status)
 {
-    int status        = parse_args(argus, argus->options, argc - 1, &argv[1]);
-    argus->error_code = status;
     if (status == ARGUS_SHOULD_EXIT) {
         argus_free(argus);
         exit(ARGUS_SUCCESS);
     }
+}
+
+/* Makes sure that a failure has its error code and a message */
+static void record_status(argus_t *argus, int status)
+{
+    if (status != ARGUS_SUCCESS && argus->error_code != status)
+        ARGUS_PARSING_ERROR(argus, status, "%s", argus_strerror(status));
+    argus->error_code = status;
+}
+
+int argus_parse(argus_t *argus, int argc, char **argv)
+{
+    argus->error_code = ARGUS_SUCCESS;
+
+    int status = parse_args(argus, argus->options, argc - 1, &argv[1]);
+    exit_if_requested(argus, status);
+    record_status(argus, status);
     if (status != ARGUS_SUCCESS) {
         fprintf(stderr, "\n");
         display_usage(argus, NULL);
@@ -38,12 +53,15 @@ int argus_parse(argus_t *argus, int argc, char **argv)
     }
 
     status = load_env_vars(argus);
+    exit_if_requested(argus, status);
+    record_status(argus, status);
     if (status != ARGUS_SUCCESS) {
         argus_free(argus);
         return (status);
     }
 
     status = post_parse_validation(argus);
+    record_status(argus, status);
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From b74df3a9d3f6e2d8294c6b6996c3c8792c3fbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 17/50] fix: do not let defaults trigger conflicts,
 requirements and exclusivity

---
 includes/argus/internal/utils.h             | 1 +
 source/core/parsing/post_parse_validation.c | 7 +++++--
 source/utils/value_utils.c                  | 6 ++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index 6029e36..981e38e 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -77,6 +77,7 @@ void apply_map_flags(argus_option_t *option);
 int           cmp_value(argus_valtype_t type, argus_value_t a, argus_value_t b);
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
                                size_t index);
+bool          is_provided(const argus_option_t *option);
 void          free_option_value(argus_option_t *option);
 void          print_value(FILE *stream, argus_valtype_t type, argus_value_t value);
 void print_value_array(FILE *stream, argus_valtype_t type, argus_value_t *values, size_t count);
diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..b2079ce 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -35,7 +35,7 @@ static int validate_conflicts(argus_t *argus, argus_option_t *options, argus_opt
     if (option->conflict) {
         for (int j = 0; option->conflict[j] != NULL; ++j) {
             argus_option_t *conflict = find_option_by_name(options, option->conflict[j]);
-            if (conflict && conflict->is_set) {
+            if (conflict && is_provided(conflict)) {
                 ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_CONFLICTING_OPTIONS,
                                     "Conflict between '%s' and '%s'", option->name, conflict->name);
                 return (ARGUS_ERROR_CONFLICTING_OPTIONS);
@@ -86,7 +86,7 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
         if (option->is_set) {
             int status;
 
-            if (current_group_is_exclusive) {
+            if (current_group_is_exclusive && is_provided(option)) {
                 if (first_set_option_name == NULL) {
                     first_set_option_name = option->name;
                 } else {
@@ -101,6 +101,9 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             if (status != ARGUS_SUCCESS)
                 return (status);
 
+            if (!is_provided(option))
+                continue;
+
             status = validate_required(argus, options, option);
             if (status != ARGUS_SUCCESS)
                 return (status);
diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 07371ff..e7b42fd 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -14,6 +14,12 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* Tells whether the user gave the option, a default alone does not count */
+bool is_provided(const argus_option_t *option)
+{
+    return (option->is_set && !(option->have_default && option->value_count == 0));
+}
+
 void free_option_value(argus_option_t *option)
 {
     if (option->is_allocated == false)
-- 
2.43.0


From 780c443db606fa653e2a7a4b97b03e84fc8d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 18/50] fix: let environment variables take precedence over
 defaults

---
 source/core/parsing/load_env_vars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..0da2eb6 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 /**
@@ -73,7 +74,7 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        if (is_provided(option) && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From 8f8005873f6b257e9e57e301aa5f47fcbe1d3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 19/50] fix: replace overridden collections instead of
 extending them

---
 source/core/parsing/load_env_vars.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 0da2eb6..be29e21 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -85,18 +85,12 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (!env_value)
             continue;
 
-        bool          was_set   = option->is_set;
-        argus_value_t old_value = option->value;
+        // The environment replaces the command line value, it does not extend it
+        free_option_value(option);
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
-        if (status != ARGUS_SUCCESS) {
-            if (was_set) {
-                option->is_set = was_set;
-                option->value  = old_value;
-            }
+        if (status != ARGUS_SUCCESS)
             return (status);
-        }
     }
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 00702dc9e66f2d6134d89c5ead5bf22332097cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 20/50] fix: read the boolean value of flags given by the
 environment

---
 includes/argus/internal/utils.h              |  1 +
 source/callbacks/handlers/bool_handler.c     | 30 +--------------
 source/callbacks/handlers/map_bool_handler.c | 40 +-------------------
 source/core/parsing/load_env_vars.c          | 16 ++++++++
 source/utils/strings.c                       | 39 +++++++++++++++++++
 5 files changed, 58 insertions(+), 68 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index 981e38e..4823afa 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -60,6 +60,7 @@ void   free_split(char **split);
 int    putnchar(char c, size_t n);
 bool   str_to_int64(const char *str, int64_t *result);
 bool   str_to_double(const char *str, double *result);
+int    str_to_bool(const char *arg);
 
 /**
  * Multi_value utility functions
diff --git a/source/callbacks/handlers/bool_handler.c b/source/callbacks/handlers/bool_handler.c
index 529643c..7ad63a1 100644
--- a/source/callbacks/handlers/bool_handler.c
+++ b/source/callbacks/handlers/bool_handler.c
@@ -7,40 +7,12 @@
  * See LICENSE file in the project root for full license information.
  */
 
-#include <ctype.h>
 #include <stddef.h>
-#include <string.h>
 
 #include "argus/errors.h"
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
-static int string_to_bool(const char *arg)
-{
-    char   value[6]       = {0};
-    char  *false_values[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
-    char  *true_values[]  = {"1", "true", "yes", "y", "on", "0x1", "0b1"};
-    size_t arg_len        = strlen(arg);
-
-    if (arg_len > sizeof(value) - 1)
-        return -1;
-    for (size_t i = 0; i < arg_len; ++i)
-        value[i] = (char)tolower(arg[i]);
-    value[arg_len] = '\0';
-
-    for (size_t i = 0; i < ARRAY_SIZE(true_values); ++i) {
-        if (strcmp(value, true_values[i]) == 0)
-            return 1;
-    }
-
-    for (size_t i = 0; i < ARRAY_SIZE(false_values); ++i) {
-        if (strcmp(value, false_values[i]) == 0)
-            return 0;
-    }
-
-    return -1;  // Invalid boolean value
-}
-
 int bool_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
     UNUSED(argus);
@@ -50,7 +22,7 @@ int bool_handler(argus_t *argus, argus_option_t *option, char *arg)
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
-    int is_bool = string_to_bool(arg);
+    int is_bool = str_to_bool(arg);
     if (is_bool == -1) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT,
                             "Invalid boolean value: '%s'. Expected 'true' or 'false'", arg);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 45048a9..54caddf 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -9,7 +9,6 @@
 
 #define _GNU_SOURCE  // NOLINT
 
-#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -19,43 +18,6 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-/**
- * Convert a string to a boolean value
- * Accepts various representations of boolean values
- *
- * True: "true", "yes", "1", "on", "y" (case-insensitive)
- * False: "false", "no", "0", "off", "n" (case-insensitive)
- *
- * @param arg String to convert
- * @return 1 for true, 0 for false, -1 for invalid value
- */
-static int string_to_bool(const char *arg)
-{
-    char  value[6]       = {0};
-    char *false_values[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
-    char *true_values[]  = {"1", "true", "yes", "y", "on", "0x1", "0b1"};
-
-    if (strlen(arg) > sizeof(value) - 1)
-        return -1;
-
-    size_t arg_len = strlen(arg);
-    for (size_t i = 0; i < arg_len && i < sizeof(value) - 1; ++i)
-        value[i] = (char)tolower(arg[i]);
-    value[arg_len] = '\0';
-
-    for (size_t i = 0; i < ARRAY_SIZE(true_values); ++i) {
-        if (strcmp(value, true_values[i]) == 0)
-            return true;
-    }
-
-    for (size_t i = 0; i < ARRAY_SIZE(false_values); ++i) {
-        if (strcmp(value, false_values[i]) == 0)
-            return false;
-    }
-
-    return -1;  // Invalid boolean value
-}
-
 /**
  * Set or update a key-value pair in the map
  */
@@ -79,7 +41,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to boolean
-    int bool_value = string_to_bool(value);
+    int bool_value = str_to_bool(value);
     if (bool_value == -1) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index be29e21..5373204 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -88,6 +88,22 @@ static int load_env(argus_t *argus, argus_option_t *options)
         // The environment replaces the command line value, it does not extend it
         free_option_value(option);
 
+        // The variable of a flag says whether it is given
+        if (option->value_type == VALUE_TYPE_FLAG) {
+            int enabled = str_to_bool(env_value);
+            if (enabled == -1) {
+                ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
+                                    "Invalid boolean value in '%s': '%s'", env_name, env_value);
+                return (ARGUS_ERROR_INVALID_VALUE);
+            }
+            if (!enabled) {
+                option->value.as_bool = false;
+                option->value_count   = 0;
+                option->is_set        = false;
+                continue;
+            }
+        }
+
         int status = execute_callbacks(argus, option, env_value);
         if (status != ARGUS_SUCCESS)
             return (status);
diff --git a/source/utils/strings.c b/source/utils/strings.c
index b9e4e5f..1972926 100644
--- a/source/utils/strings.c
+++ b/source/utils/strings.c
@@ -10,6 +10,8 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include "argus/internal/cross_platform.h"
+#include "argus/internal/utils.h"
+#include <ctype.h>
 #include <errno.h>
 #include <math.h>
 #include <stdbool.h>
@@ -169,3 +171,40 @@ bool str_to_double(const char *str, double *result)
     *result = value;
     return (true);
 }
+
+/**
+ * Convert a string to a boolean value
+ * Accepts various representations of boolean values
+ *
+ * True: "true", "yes", "1", "on", "y" (case-insensitive)
+ * False: "false", "no", "0", "off", "n" (case-insensitive)
+ *
+ * @param arg String to convert
+ * @return 1 for true, 0 for false, -1 for invalid value
+ */
+int str_to_bool(const char *arg)
+{
+    char  value[6]       = {0};
+    char *false_values[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
+    char *true_values[]  = {"1", "true", "yes", "y", "on", "0x1", "0b1"};
+
+    if (strlen(arg) > sizeof(value) - 1)
+        return -1;
+
+    size_t arg_len = strlen(arg);
+    for (size_t i = 0; i < arg_len && i < sizeof(value) - 1; ++i)
+        value[i] = (char)tolower(arg[i]);
+    value[arg_len] = '\0';
+
+    for (size_t i = 0; i < ARRAY_SIZE(true_values); ++i) {
+        if (strcmp(value, true_values[i]) == 0)
+            return true;
+    }
+
+    for (size_t i = 0; i < ARRAY_SIZE(false_values); ++i) {
+        if (strcmp(value, false_values[i]) == 0)
+            return false;
+    }
+
+    return -1;  // Invalid boolean value
+}
-- 
2.43.0


From a4c2b6722680011cc8ad1beae921acd6b7560c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 21/50] fix: enforce the required flag on options

---
 source/core/parsing/post_parse_validation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index b2079ce..4cfab6e 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -77,9 +77,11 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             continue;
         }
 
-        if (option->type == TYPE_POSITIONAL && (option->flags & FLAG_REQUIRED) && !option->is_set) {
-            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED,
-                                "Required positional argument missing: '%s'", option->name);
+        if ((option->type == TYPE_POSITIONAL || option->type == TYPE_OPTION) &&
+            (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED, "Required %s missing: '%s'",
+                                option->type == TYPE_OPTION ? "option" : "positional argument",
+                                option->name);
             return (ARGUS_ERROR_MISSING_REQUIRED);
         }
 
-- 
2.43.0


From c63a6c570a45b4fdef449aea50fbf76099f7868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 22/50] fix: validate the full value of integers and floats

---
 source/callbacks/validators/choices_validator.c | 10 ++++++----
 source/callbacks/validators/range_validator.c   | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..262e64b 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -44,20 +44,22 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
 {
     argus_option_t *option  = (argus_option_t *)option_ptr;
     choices_data_t *choices = &data.choices;
+    int64_t         value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
 
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (value == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]",
+                            value, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices", value);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..0bcde13 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,9 +25,22 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    if (option->value_type == VALUE_TYPE_FLOAT) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %g is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From 9ba1405f4c56d0cdf44f36c64f638be2a3714d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 23/50] fix: report a failed allocation of regex match data

---
 source/callbacks/validators/regex_validator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/callbacks/validators/regex_validator.c b/source/callbacks/validators/regex_validator.c
index 14e697c..797b3a0 100644
--- a/source/callbacks/validators/regex_validator.c
+++ b/source/callbacks/validators/regex_validator.c
@@ -57,6 +57,13 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
     }
 
     pcre2_match_data *match_data = pcre2_match_data_create_from_pattern(re, NULL);
+    if (match_data == NULL) {
+        pcre2_code_free(re);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for regex '%s'",
+                            pattern);
+        return ARGUS_ERROR_MEMORY;
+    }
+
     int rc = pcre2_match(re, (PCRE2_SPTR)value, PCRE2_ZERO_TERMINATED, 0, 0, match_data, NULL);
 
     pcre2_match_data_free(match_data);
-- 
2.43.0


From b7b2c6e1bdc5e1dd9b10bbc73007c1f46e98c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 24/50] fix: order and compare 64-bit collection integers by
 their full value

---
 source/utils/multi_values.c | 59 +++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 60dbed2..02de646 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -29,6 +29,18 @@ static int compare_int_values(const void *a, const void *b)
     return 0;
 }
 
+static int compare_int64_values(const void *a, const void *b)
+{
+    const argus_value_t *va = (const argus_value_t *)a;
+    const argus_value_t *vb = (const argus_value_t *)b;
+
+    if (va->as_int64 < vb->as_int64)
+        return -1;
+    if (va->as_int64 > vb->as_int64)
+        return 1;
+    return 0;
+}
+
 static int compare_string_values(const void *a, const void *b)
 {
     const argus_value_t *va = (const argus_value_t *)a;
@@ -72,9 +84,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -123,6 +135,13 @@ void sort_int_array(argus_value_t *array, size_t count)
     qsort(array, count, sizeof(argus_value_t), compare_int_values);
 }
 
+static void sort_int64_array(argus_value_t *array, size_t count)
+{
+    if (count <= 1)
+        return;
+    qsort(array, count, sizeof(argus_value_t), compare_int64_values);
+}
+
 void sort_string_array(argus_value_t *array, size_t count)
 {
     if (count <= 1)
@@ -165,6 +184,30 @@ size_t make_int_array_unique(argus_value_t *array, size_t count)
     return unique_count;
 }
 
+static size_t make_int64_array_unique(argus_value_t *array, size_t count)
+{
+    if (count <= 1)
+        return count;
+
+    size_t unique_count = 1;
+
+    for (size_t i = 1; i < count; i++) {
+        bool is_duplicate = false;
+
+        for (size_t j = 0; j < unique_count; j++) {
+            if (array[i].as_int64 == array[j].as_int64) {
+                is_duplicate = true;
+                break;
+            }
+        }
+
+        if (!is_duplicate)
+            array[unique_count++] = array[i];
+    }
+
+    return unique_count;
+}
+
 size_t make_string_array_unique(argus_value_t *array, size_t count)
 {
     if (count <= 1)
@@ -287,7 +330,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
@@ -352,10 +395,13 @@ void apply_array_flags(argus_option_t *option)
     if (option->flags & FLAG_SORTED) {
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 sort_int_array(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                sort_int64_array(option->value.as_array, option->value_count);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 sort_string_array(option->value.as_array, option->value_count);
@@ -377,10 +423,13 @@ void apply_array_flags(argus_option_t *option)
 
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 new_count = make_int_array_unique(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                new_count = make_int64_array_unique(option->value.as_array, option->value_count);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 new_count = make_string_array_unique(option->value.as_array, option->value_count);
-- 
2.43.0


From 30148f06449135361cfa5a829c78d64801ac0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 25/50] fix: remove duplicate map values without allocating

---
 source/utils/multi_values.c | 93 ++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 59 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 02de646..3b434f9 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -304,70 +304,45 @@ void sort_map_by_bool_values(argus_pair_t *map, size_t count)
  * Map uniqueness implementation
  */
 
+static bool same_map_values(const argus_pair_t *a, const argus_pair_t *b, argus_valtype_t type)
+{
+    switch (type) {
+        case VALUE_TYPE_INT:
+        case VALUE_TYPE_MAP_INT:
+            return a->value.as_int64 == b->value.as_int64;
+
+        case VALUE_TYPE_STRING:
+        case VALUE_TYPE_MAP_STRING:
+            return a->value.as_string && b->value.as_string &&
+                   strcmp(a->value.as_string, b->value.as_string) == 0;
+
+        case VALUE_TYPE_FLOAT:
+        case VALUE_TYPE_MAP_FLOAT:
+            return fabs(a->value.as_float - b->value.as_float) < 0.0000001;
+
+        case VALUE_TYPE_BOOL:
+        case VALUE_TYPE_MAP_BOOL:
+            return a->value.as_bool == b->value.as_bool;
+
+        default:
+            return false;
+    }
+}
+
 size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t type)
 {
     if (count <= 1)
         return count;
 
-    // Allocate array to track duplicates
-    bool *duplicates = calloc(count, sizeof(bool));
-    if (!duplicates)
-        return count;  // Failed to allocate, return unchanged
-
-    size_t unique_count = 0;
-
-    // Mark duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (duplicates[i])
-            continue;
-
-        for (size_t j = i + 1; j < count; j++) {
-            if (duplicates[j])
-                continue;
-
-            bool is_duplicate = false;
-
-            switch (type) {
-                case VALUE_TYPE_INT:
-                case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
-                    break;
-
-                case VALUE_TYPE_STRING:
-                case VALUE_TYPE_MAP_STRING:
-                    if (map[i].value.as_string && map[j].value.as_string) {
-                        is_duplicate =
-                            (strcmp(map[i].value.as_string, map[j].value.as_string) == 0);
-                    }
-                    break;
-
-                case VALUE_TYPE_FLOAT:
-                case VALUE_TYPE_MAP_FLOAT:
-                    is_duplicate =
-                        (fabs(map[i].value.as_float - map[j].value.as_float) < 0.0000001);
-                    break;
-
-                case VALUE_TYPE_BOOL:
-                case VALUE_TYPE_MAP_BOOL:
-                    is_duplicate = (map[i].value.as_bool == map[j].value.as_bool);
-                    break;
-
-                default:
-                    break;
-            }
+    size_t unique_count = 1;
 
-            if (is_duplicate)
-                duplicates[j] = true;
-        }
-    }
+    for (size_t i = 1; i < count; i++) {
+        bool is_duplicate = false;
 
-    // Rebuild the array without duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (!duplicates[i]) {
-            if (i != unique_count)
-                map[unique_count] = map[i];
-            unique_count++;
-        } else {
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++)
+            is_duplicate = same_map_values(&map[j], &map[i], type);
+
+        if (is_duplicate) {
             // Free duplicate string keys
             free((void *)map[i].key);
 
@@ -375,10 +350,10 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             if ((type == VALUE_TYPE_STRING || type == VALUE_TYPE_MAP_STRING) &&
                 map[i].value.as_string)
                 free(map[i].value.as_string);
-        }
+        } else
+            map[unique_count++] = map[i];
     }
 
-    free(duplicates);
     return unique_count;
 }
 
-- 
2.43.0


From 100e89e9da7b9ad593e651e369f00869af2e1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 26/50] fix: match path components with whole command names

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..28cee49 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strlen(command) != component_lenght ||
+            strncmp(component, command, component_lenght) != 0)
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From 83ae91910e6c1abd03ada9ae6f2de7eb932d9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 27/50] fix: never resolve group headings as options

---
 source/utils/option_lookup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 28cee49..f24433e 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -51,7 +51,9 @@ argus_option_t *find_positional(argus_option_t *options, int position)
 argus_option_t *find_option_by_name(argus_option_t *options, const char *name)
 {
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
-        if (options[i].name && strcmp(options[i].name, name) == 0) {
+        // Group headings are not values, they may share the name of an option
+        if (options[i].type != TYPE_GROUP && options[i].name &&
+            strcmp(options[i].name, name) == 0) {
             return (&options[i]);
         }
     }
-- 
2.43.0


From 8e1eef5eeb0216479c792826391bc470745773c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 28/50] fix: keep the value of floating point defaults

---
 includes/argus/options.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..7a0ffd5 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,13 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+/* Floating point defaults keep their value, all others their representation */
+#define ARGUS_IF_FLOAT(val, yes, no)   _Generic((val), float: (yes), double: (yes), long double: (yes), default: (no))
+#define DEFAULT_VALUE(val)      ARGUS_IF_FLOAT(val, \
+                                    ((argus_value_t){ .as_float = (double)ARGUS_IF_FLOAT(val, val, 0.0) }), \
+                                    ((argus_value_t){ .raw = (uintptr_t)ARGUS_IF_FLOAT(val, 0, val) }))
+#define DEFAULT(val)            .value = DEFAULT_VALUE(val),         \
+                                .default_value = DEFAULT_VALUE(val), \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From 033f58571b4f86313e97841c7e31f40094347dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 29/50] fix: check the flags of options against their value
 type

---
 includes/argus/types.h                      | 14 ++++++++------
 source/core/validation/validate_arguments.c |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/includes/argus/types.h b/includes/argus/types.h
index 3a5d34b..64dd5b6 100644
--- a/includes/argus/types.h
+++ b/includes/argus/types.h
@@ -106,14 +106,16 @@ typedef enum argus_optflags_e
 
 /* Flag masks for validation */
 #define VERSIONING_FLAG_MASK (FLAG_DEPRECATED | FLAG_EXPERIMENTAL)
+#define ENV_FLAG_MASK        (FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | FLAG_NO_ENV_PREFIX)
 #define OPTION_FLAG_MASK                                                                           \
-    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | VERSIONING_FLAG_MASK)
-#define OPTION_ARRAY_FLAG_MASK (FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK)
+    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | ENV_FLAG_MASK | VERSIONING_FLAG_MASK)
+#define OPTION_ARRAY_FLAG_MASK (OPTION_FLAG_MASK | FLAG_SORTED | FLAG_UNIQUE)
 #define OPTION_MAP_FLAG_MASK                                                                       \
-    (FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE | VERSIONING_FLAG_MASK)
-#define GROUP_FLAG_MASK           (FLAG_EXCLUSIVE)
-#define POSITIONAL_FLAG_MASK      (FLAG_REQUIRED)
-#define POSITIONAL_MANY_FLAG_MASK (OPTION_ARRAY_FLAG_MASK | FLAG_REQUIRED | FLAG_OPTIONAL)
+    (OPTION_FLAG_MASK | FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE)
+#define GROUP_FLAG_MASK      (FLAG_EXCLUSIVE)
+#define POSITIONAL_FLAG_MASK (FLAG_REQUIRED)
+#define POSITIONAL_MANY_FLAG_MASK                                                                  \
+    (FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK | FLAG_REQUIRED | FLAG_OPTIONAL)
 #define SUBCOMMAND_FLAG_MASK      (FLAG_HIDDEN | FLAG_ADVANCED | VERSIONING_FLAG_MASK)
 
 /**
diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..2a27582 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -98,9 +98,10 @@ int validate_option(argus_t *argus, argus_option_t *options, argus_option_t *opt
         ARGUS_STRUCT_ERROR(option, "Option must have a short name or a long name");
         status = ARGUS_ERROR_MALFORMED_OPTION;
     }
-    if ((option->value_type == VALUE_TYPE_PRIMITIVE && option->flags & ~OPTION_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_ARRAY && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_MAP && option->flags & ~OPTION_MAP_FLAG_MASK)) {
+    if (((option->value_type & (VALUE_TYPE_PRIMITIVE | VALUE_TYPE_FLAG)) &&
+         option->flags & ~OPTION_FLAG_MASK) ||
+        ((option->value_type & VALUE_TYPE_ARRAY) && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
+        ((option->value_type & VALUE_TYPE_MAP) && option->flags & ~OPTION_MAP_FLAG_MASK)) {
         ARGUS_STRUCT_ERROR(option, "Option has invalid flags for its value type");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From 3ffd6f9c517451fe14ec77b891e0081f2e028d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 30/50] fix: accept ordering flags on multi-value positionals

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 2a27582..5d4cb77 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -144,9 +144,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From 0cbc8d32ec58623432382a2ac9fe2ca50ba193f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 31/50] fix: do not print a null message for a default refused
 silently

---
 source/core/validation/validate_arguments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5d4cb77..77e9e71 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -38,7 +38,7 @@ static int validate_default_value(argus_t *argus, argus_option_t *option)
                 char *error_message = read_stderr();
                 restore_stderr();
                 ARGUS_STRUCT_ERROR(option, "Default value does not pass validations: \n\t    %s",
-                                   error_message);
+                                   error_message ? error_message : "refused by a validator");
                 free(error_message);
                 status = ARGUS_ERROR_INVALID_DEFAULT;
             } else
-- 
2.43.0


From aa618cf68fd26bddb60738db5ca435ec07a25b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 32/50] fix: detect duplicate names of every kind of entry in
 any order

---
 source/core/validation/validate_structure.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..e52b9f9 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -79,15 +79,18 @@ int validate_placement(argus_option_t *options)
     return (status);
 }
 
-static int lname_is_unique(argus_option_t *options, int i)
+static int name_is_unique(argus_option_t *options, int i)
 {
     int status = ARGUS_SUCCESS;
 
-    if (options[i].lname == NULL)
+    // Group headings are labels, not names
+    if (options[i].type == TYPE_GROUP)
         return status;
 
     for (int j = i + 1; options[j].type != TYPE_NONE; ++j) {
-        if (options[i].lname && options[j].name && strcmp(options[i].lname, options[j].name) == 0) {
+        if (options[j].type == TYPE_GROUP)
+            continue;
+        if (options[i].name && options[j].name && strcmp(options[i].name, options[j].name) == 0) {
             ARGUS_STRUCT_ERROR(&options[i], "Name conflict with option line: %d", options[j].line);
             status = ARGUS_ERROR_DUPLICATE_OPTION;
         }
@@ -148,7 +151,7 @@ int validate_naming(argus_option_t *options)
             ARGUS_STRUCT_ERROR(option, "Long name cannot be empty");
             status = ARGUS_ERROR_MALFORMED_OPTION;
         }
-        if (lname_is_unique(options, i) != ARGUS_SUCCESS)
+        if (name_is_unique(options, i) != ARGUS_SUCCESS)
             status = ARGUS_ERROR_MALFORMED_OPTION;
     }
     return (status);
-- 
2.43.0


From d6686cf81f8efb3395412588e901885d2b750ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 33/50] fix: check the placement of every multi-value
 positional

---
 source/core/validation/validate_structure.c | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index e52b9f9..629883f 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -22,6 +22,7 @@ int validate_placement(argus_option_t *options)
     bool has_positional          = false;
     bool has_optional_positional = false;
     bool has_positional_many     = false;
+    bool has_variadic            = false;
     bool has_subcommands         = false;
     bool has_helper              = false;
     int  status                  = ARGUS_SUCCESS;
@@ -31,21 +32,27 @@ int validate_placement(argus_option_t *options)
 
         if (option->type == TYPE_SUBCOMMAND)
             has_subcommands = true;
-        if (option->type == TYPE_POSITIONAL && !(option->flags & FLAG_REQUIRED))
-            has_optional_positional = true;
-        else if (option->type == TYPE_POSITIONAL && (option->value_type & VALUE_TYPE_VARIADIC)) {
-            if (has_positional_many == true) {
+        if (option->type == TYPE_POSITIONAL) {
+            bool is_required = option->flags & FLAG_REQUIRED;
+
+            if (is_required)
+                has_positional = true;
+            else
+                has_optional_positional = true;
+
+            if (has_variadic && (option->value_type & VALUE_TYPE_VARIADIC)) {
                 ARGUS_STRUCT_ERROR(option, "Only one POSITIONAL_MANY argument is allowed");
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            has_positional_many = true;
-        } else if (option->type == TYPE_POSITIONAL) {
-            if (has_positional_many == true) {
+            } else if (has_variadic) {
                 ARGUS_STRUCT_ERROR(
                     option, "POSITIONAL argument must be placed before POSITIONAL_MANY argument");
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             }
-            has_positional = true;
+            if (option->value_type & VALUE_TYPE_VARIADIC) {
+                has_variadic = true;
+                if (is_required)
+                    has_positional_many = true;
+            }
         }
         if (option->type == TYPE_OPTION && option->name && strcmp(option->name, "help") == 0)
             has_helper = true;
-- 
2.43.0


From 7fb752f8159a9654fc2da4add9aa9471656e678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 34/50] fix: wrap help text for any line width and column

---
 source/display/help/help_formatter.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..f0c14b7 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -170,10 +171,12 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     size_t line_start  = 0;
     size_t current_pos = 0;
     size_t last_space  = 0;
+    size_t margin      = indent + 2;  // Consider "- " prefix
+    // Lines are not limited when the margin leaves no room for text
+    size_t room = line_width > margin ? line_width - margin : SIZE_MAX;
 
     while (current_pos < text_len) {
-        while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
+        while (current_pos < text_len && current_pos - line_start < room &&
                text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
@@ -187,7 +190,9 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos < text_len) {
+            if (text[current_pos] == ' ')
+                last_space = current_pos;
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From 129a14ac455e1a423a47e774d474eb1451b96c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 35/50] fix: do not list hidden subcommands in help

---
 source/display/help/help_organizer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..4962a4f 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -103,6 +103,9 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From e8c47ee7bd4d88211966d3f429d44ea8dfe11354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 36/50] fix: do not dereference a group that could not be
 allocated

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 4962a4f..e4db8ac 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From 6c5d3ed8d34ce04b0f95155846454139c10f9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 37/50] fix: show every mark of an option in help

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index f0c14b7..b48438b 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -378,7 +378,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From ad8ea4bccddf4a35a5845b8e35a6d475dd2f25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 38/50] fix: keep a parenthesis ending the help text before the
 environment variable

---
 source/display/help/help_formatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index b48438b..74b7001 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -362,10 +362,12 @@ static char *append_env_info(char *description, argus_t *argus, const argus_opti
     char   env_buf[256] = {0};
     size_t desc_len     = strlen(description);
 
-    if (desc_len > 0 && description[desc_len - 1] == ')') {
+    size_t help_len     = option->help ? strlen(option->help) : 0;
+
+    // Join the information already appended, never the help text itself
+    if (desc_len > help_len && description[desc_len - 1] == ')') {
         snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
-        if (desc_len > 0)
-            description[desc_len - 1] = '\0';
+        description[desc_len - 1] = '\0';
     } else
         snprintf(env_buf, sizeof(env_buf), " (env: %s)", env_name);
 
-- 
2.43.0


From 90e3351fd3514a3bf9ab503988ee074e04678012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 39/50] fix: show the validator of positionals in help

---
 source/display/help/help_formatter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 74b7001..0a35045 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -306,8 +306,9 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
     if (!option->validators)
         return description;
 
+    // Positionals show no hint
     bool validator_used_in_hint = false;
-    if (has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
+    if (option->type == TYPE_OPTION && has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0


From 40e510d18e19e9f9cc2044a5dcf19ccab13574e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 40/50] fix: show whole defaults and validators in help

---
 source/display/help/help_formatter.c | 49 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 0a35045..c626b18 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -268,36 +269,35 @@ static char *append_default_info(char *description, const argus_option_t *option
     if (!option->have_default || option->value_type == VALUE_TYPE_FLAG)
         return description;
 
-    char default_buf[128] = {0};
-    snprintf(default_buf, sizeof(default_buf), " (default: ");
-    size_t default_len = strlen(default_buf);
+    char default_buf[512] = {0};
+
+    description = append_to_description(description, " (default: ");
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf, sizeof(default_buf), "%" PRId64, option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "\"%s\")",
-                         option->default_value.as_string);
+                description = append_to_description(description, "\"");
+                description = append_to_description(description, option->default_value.as_string);
+                snprintf(default_buf, sizeof(default_buf), "\"");
             } else
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "null)");
+                snprintf(default_buf, sizeof(default_buf), "null");
             break;
         case VALUE_TYPE_FLOAT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%.2f)",
-                     option->default_value.as_float);
+            snprintf(default_buf, sizeof(default_buf), "%.2f", option->default_value.as_float);
             break;
         case VALUE_TYPE_BOOL:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%s)",
+            snprintf(default_buf, sizeof(default_buf), "%s",
                      option->default_value.as_bool ? "true" : "false");
             break;
         default:
-            safe_strcat(default_buf, sizeof(default_buf), ")");
             break;
     }
 
-    return append_to_description(description, default_buf);
+    description = append_to_description(description, default_buf);
+    return append_to_description(description, ")");
 }
 
 // Helper function to append validator information
@@ -322,27 +322,28 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    char validator_info[256] = {0};
+                    const char *prefix = NULL;
+                    const char *suffix = ")";
 
                     if (validator->func == regex_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (pattern: %s)",
-                                 validator_desc);
+                        prefix = " (pattern: ";
                     } else if (validator->func == choices_string_validator ||
                                validator->func == choices_int_validator ||
                                validator->func == choices_float_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " [%s]", validator_desc);
+                        prefix = " [";
+                        suffix = "]";
                     } else if (validator->func == length_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
+                        prefix = " (";
                     } else if (validator->func == range_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (range: %s)",
-                                 validator_desc);
+                        prefix = " (range: ";
                     } else if (validator->func == count_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (count: %s)",
-                                 validator_desc);
+                        prefix = " (count: ";
                     }
 
-                    if (validator_info[0] != '\0') {
-                        description = append_to_description(description, validator_info);
+                    if (prefix != NULL) {
+                        description = append_to_description(description, prefix);
+                        description = append_to_description(description, validator_desc);
+                        description = append_to_description(description, suffix);
                     }
 
                     free(validator_desc);
-- 
2.43.0


From 47d5aa9c56da0cd6e6e37922d479b7248f9bbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 41/50] fix: show whole validator bounds in help

---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..d60514a 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..013cbdf 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 0bcde13..6f1ddbc 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -49,10 +49,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
-- 
2.43.0


From 8b362e2c74cfd531e4690ec13841ffe2b3bfc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 42/50] fix: show the digits of float choices

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index 262e64b..955cd1a 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -127,7 +127,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0


From 086c8329eb6a170ce4639be002ca7d904b4ac4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 43/50] fix: build environment variable names of any length,
 the same for help

---
 includes/argus/internal/parsing.h    |  5 +-
 source/core/parsing/load_env_vars.c  | 74 ++++++++++++++--------------
 source/display/help/help_formatter.c | 70 ++++----------------------
 3 files changed, 50 insertions(+), 99 deletions(-)

diff --git a/includes/argus/internal/parsing.h b/includes/argus/internal/parsing.h
index 9c0b7d8..62a8cdf 100644
--- a/includes/argus/internal/parsing.h
+++ b/includes/argus/internal/parsing.h
@@ -10,6 +10,8 @@
 #ifndef ARGUS_INTERNAL_PARSING_H
 #define ARGUS_INTERNAL_PARSING_H
 
+#include <stdbool.h>
+
 #include "argus/types.h"
 
 /**
@@ -45,6 +47,7 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value);
 /**
  * Load option values from environment variables
  */
-int load_env_vars(argus_t *argus);
+int  load_env_vars(argus_t *argus);
+bool env_var_name(const argus_t *argus, const argus_option_t *option, char **name);
 
 #endif /* ARGUS_INTERNAL_PARSING_H */
diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 5373204..5ce45ae 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -18,52 +18,44 @@
 #include "argus/types.h"
 
 /**
- * get_env_var_name - Get environment variable name for an option
+ * env_var_name - Get environment variable name for an option
  *
  * @param argus  Argus context
  * @param option Option to get env var name for
+ * @param name   Where to store the name (to be freed) or NULL if there is none
  *
- * @return Environment variable name or NULL if none
+ * @return false if the name could not be allocated
  */
-static const char *get_env_var_name(argus_t *argus, argus_option_t *option)
+bool env_var_name(const argus_t *argus, const argus_option_t *option, char **name)
 {
-    static char full_name[128];
-    const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
-    size_t      prefix_len       = strlen(prefix);
-    bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
-
-    if (option->env_name) {
-        if (option->flags & FLAG_NO_ENV_PREFIX)
-            return (option->env_name);
-
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
-            return (option->env_name);
-
-        if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, option->env_name);
-        } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, option->env_name);
-        }
-        return (full_name);
+    const char *base       = option->env_name;
+    const char *prefix     = argus->env_prefix ? argus->env_prefix : "";
+    size_t      prefix_len = strlen(prefix);
+
+    *name = NULL;
+    if (!base && !(option->flags & FLAG_AUTO_ENV))
+        return (true);
+    if (!base)
+        base = option->name ? option->name : (option->lname ? option->lname : "");
+
+    if ((option->flags & FLAG_NO_ENV_PREFIX) ||
+        (option->env_name && strncmp(base, prefix, prefix_len) == 0)) {
+        prefix     = "";
+        prefix_len = 0;
     }
+    const char *separator = prefix_len > 0 && prefix[prefix_len - 1] != '_' ? "_" : "";
 
-    if (option->flags & FLAG_AUTO_ENV) {
-        const char *name = option->name ? option->name : (option->lname ? option->lname : "");
-
-        if (option->flags & FLAG_NO_ENV_PREFIX) {
-            snprintf(full_name, sizeof(full_name), "%s", name);
-        } else if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, name);
-        } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, name);
-        }
+    size_t size = prefix_len + strlen(separator) + strlen(base) + 1;
+    *name       = malloc(size);
+    if (*name == NULL)
+        return (false);
+    snprintf(*name, size, "%s%s%s", prefix, separator, base);
 
-        for (char *p = full_name; *p; ++p)
-            *p = *p == '-' ? '_' : (char)toupper(*p);
-        return (full_name);
+    if (!option->env_name) {
+        for (char *p = *name; *p; ++p)
+            *p = *p == '-' ? '_' : (char)toupper((unsigned char)*p);
     }
-
-    return (NULL);
+    return (true);
 }
 
 static int load_env(argus_t *argus, argus_option_t *options)
@@ -77,11 +69,16 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (is_provided(option) && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
-        const char *env_name = get_env_var_name(argus, option);
+        char *env_name = NULL;
+        if (!env_var_name(argus, option, &env_name)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory");
+            return (ARGUS_ERROR_MEMORY);
+        }
         if (!env_name)
             continue;
 
         char *env_value = getenv(env_name);
+        free(env_name);
         if (!env_value)
             continue;
 
@@ -93,7 +90,8 @@ static int load_env(argus_t *argus, argus_option_t *options)
             int enabled = str_to_bool(env_value);
             if (enabled == -1) {
                 ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
-                                    "Invalid boolean value in '%s': '%s'", env_name, env_value);
+                                    "Invalid boolean value in the environment for '%s': '%s'",
+                                    option->name, env_value);
                 return (ARGUS_ERROR_INVALID_VALUE);
             }
             if (!enabled) {
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index c626b18..d4b98b0 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -19,12 +19,11 @@
 #include "argus/internal/cross_platform.h"
 #include "argus/internal/display.h"
 #include "argus/internal/help.h"
+#include "argus/internal/parsing.h"
 #include "argus/internal/utils.h"
 #include "argus/options.h"
 #include "argus/types.h"
 
-#include <ctype.h>
-
 argus_helper_config_t get_default_helper_config(void)
 {
     return (argus_helper_config_t){.max_line_width          = DEFAULT_MAX_LINE_WIDTH,
@@ -113,55 +112,6 @@ char *get_smart_hint(argus_t *argus, const argus_option_t *option)
     return safe_strdup(get_base_type_name(option->value_type));
 }
 
-/**
- * get_env_var_name_for_display - Get environment variable name for display purposes
- *
- * @param argus  Argus context
- * @param option Option to get env var name for
- *
- * @return Environment variable name or NULL if none
- */
-static const char *get_env_var_name_for_display(argus_t *argus, const argus_option_t *option)
-{
-    static char full_name[128];
-    const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
-    size_t      prefix_len       = strlen(prefix);
-    bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
-
-    if (option->env_name) {
-        if (option->flags & FLAG_NO_ENV_PREFIX)
-            return option->env_name;
-
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
-            return option->env_name;
-
-        if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, option->env_name);
-        } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, option->env_name);
-        }
-        return full_name;
-    }
-
-    if (option->flags & FLAG_AUTO_ENV) {
-        const char *name = option->name ? option->name : (option->lname ? option->lname : "");
-
-        if (option->flags & FLAG_NO_ENV_PREFIX) {
-            snprintf(full_name, sizeof(full_name), "%s", name);
-        } else if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, name);
-        } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, name);
-        }
-
-        for (char *p = full_name; *p; ++p)
-            *p = *p == '-' ? '_' : (char)toupper(*p);
-        return full_name;
-    }
-
-    return NULL;
-}
-
 void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 {
     // NOLINTNEXTLINE(clang-analyzer-core.uninitialized.Branch)
@@ -357,23 +307,23 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
 // Helper function to append environment variable information
 static char *append_env_info(char *description, argus_t *argus, const argus_option_t *option)
 {
-    const char *env_name = get_env_var_name_for_display(argus, option);
-    if (!env_name)
+    char *env_name = NULL;
+    if (!env_var_name(argus, option, &env_name) || !env_name)
         return description;
 
-    char   env_buf[256] = {0};
-    size_t desc_len     = strlen(description);
-
-    size_t help_len     = option->help ? strlen(option->help) : 0;
+    size_t desc_len = strlen(description);
+    size_t help_len = option->help ? strlen(option->help) : 0;
 
     // Join the information already appended, never the help text itself
     if (desc_len > help_len && description[desc_len - 1] == ')') {
-        snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
         description[desc_len - 1] = '\0';
+        description               = append_to_description(description, ", env: ");
     } else
-        snprintf(env_buf, sizeof(env_buf), " (env: %s)", env_name);
+        description = append_to_description(description, " (env: ");
 
-    return append_to_description(description, env_buf);
+    description = append_to_description(description, env_name);
+    free(env_name);
+    return append_to_description(description, ")");
 }
 
 // Helper function to append flag information
-- 
2.43.0


From 88b277db77610b2cdc2e38c9c53a037c0eff49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 44/50] fix: show whole collection hints in help

---
 source/display/help/help_formatter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index d4b98b0..b246e3e 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -64,9 +64,11 @@ const char *get_collection_format(argus_valtype_t type)
 
 char *format_collection_hint(const char *format, const char *type_name)
 {
-    static char buffer[64];
+    size_t size   = strlen(format) + strlen(type_name) + 1;
+    char  *buffer = malloc(size);
 
-    snprintf(buffer, sizeof(buffer), format, type_name);
+    if (buffer)
+        snprintf(buffer, size, format, type_name);
     return buffer;
 }
 
@@ -183,8 +185,9 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
             const char *collection_format = get_collection_format(option->value_type);
 
             if (collection_format) {
-                const char *format_str = format_collection_hint(collection_format, smart_hint);
-                name_len += printf(" <%s>", format_str);
+                char *format_str = format_collection_hint(collection_format, smart_hint);
+                name_len += printf(" <%s>", format_str ? format_str : smart_hint);
+                free(format_str);
             } else
                 name_len += printf(" <%s>", smart_hint);
             free(smart_hint);
-- 
2.43.0


From 228686e6da38395b82fd6ac7894e6ac691c12fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 45/50] fix: list commands with their whole path

---
 source/display/command_display.c | 52 +++++++++++++++++---------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 4c4e5a7..771fbcb 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -11,20 +11,30 @@
 
 #include <stdbool.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "argus/internal/display.h"
 #include "argus/types.h"
 
-#define COMMAND_BUFFER_SIZE   512
-#define FULL_PATH_BUFFER_SIZE 1024
+// Returns the path of a command below a base path, to be freed
+static char *command_path(const char *base_path, const char *name)
+{
+    size_t size = strlen(base_path) + strlen(name) + 2;
+    char  *path = malloc(size);
+
+    if (path != NULL)
+        snprintf(path, size, "%s %s", base_path, name);
+    return path;
+}
 
-static void print_command_line(const char *command_path, const char *description, argus_t *argus)
+static void print_command_line(const char *base_path, const char *name, const char *description,
+                               argus_t *argus)
 {
-    printf("  %s", command_path);
+    printf("  %s %s", base_path, name);
 
     size_t padding  = 0;
-    size_t name_len = strlen(command_path);
+    size_t name_len = strlen(base_path) + strlen(name) + 1;
     if (argus->helper.config.description_column > name_len + 2)
         padding = argus->helper.config.description_column - name_len - 2;
     else
@@ -42,7 +52,6 @@ static void print_command_line(const char *command_path, const char *description
 static void print_subcommand_paths(const argus_option_t *options, const char *base_path,
                                    argus_t *argus, bool *first_in_group)
 {
-    char path_buffer[COMMAND_BUFFER_SIZE];
     bool current_group_started = false;
 
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
@@ -56,15 +65,14 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
         current_group_started = true;
         *first_in_group       = false;
 
-        snprintf(path_buffer, sizeof(path_buffer), "%s %s", base_path, option->name);
-        print_command_line(path_buffer, option->help, argus);
+        print_command_line(base_path, option->name, option->help, argus);
 
-        if (option->sub_options != NULL) {
-            char sub_path_buffer[COMMAND_BUFFER_SIZE];
-            snprintf(sub_path_buffer, sizeof(sub_path_buffer), "%s %s", base_path, option->name);
+        char *sub_path = command_path(base_path, option->name);
+        if (option->sub_options != NULL && sub_path != NULL) {
             bool nested_first = true;
-            print_subcommand_paths(option->sub_options, sub_path_buffer, argus, &nested_first);
+            print_subcommand_paths(option->sub_options, sub_path, argus, &nested_first);
         }
+        free(sub_path);
     }
 }
 
@@ -115,10 +123,7 @@ static bool print_simple_commands_group(argus_t *argus)
         const argus_option_t *option = &argus->options[i];
 
         if (is_effectively_simple_command(option)) {
-            char command_path[COMMAND_BUFFER_SIZE];
-            snprintf(command_path, sizeof(command_path), "%s %s", argus->program_name,
-                     option->name);
-            print_command_line(command_path, option->help, argus);
+            print_command_line(argus->program_name, option->name, option->help, argus);
             printed_any = true;
         }
     }
@@ -141,12 +146,12 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
 
         first_family = false;
 
-        char family_base_path[COMMAND_BUFFER_SIZE];
-        snprintf(family_base_path, sizeof(family_base_path), "%s %s", argus->program_name,
-                 option->name);
+        char *family_base_path = command_path(argus->program_name, option->name);
+        if (family_base_path == NULL)
+            return;
 
         if (option->action != NULL)
-            print_command_line(family_base_path, option->help, argus);
+            print_command_line(argus->program_name, option->name, option->help, argus);
 
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
@@ -154,12 +159,11 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
             if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL)
                 continue;
 
-            char full_command_path[FULL_PATH_BUFFER_SIZE];
-            snprintf(full_command_path, sizeof(full_command_path), "%s %s", family_base_path,
-                     sub_option->name);
-            print_command_line(full_command_path, sub_option->help, argus);
+            print_command_line(family_base_path, sub_option->name, sub_option->help, argus);
         }
 
+        free(family_base_path);
+
         printed_simple_commands = false;
     }
 }
-- 
2.43.0


From d527367754a6a041107ce45a846a40c5dcfc0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 46/50] fix: describe the ownership of collection hints

---
 includes/argus/internal/help.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index e44b47a..839aabf 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -127,7 +127,7 @@ const char *get_collection_format(argus_valtype_t type);
  *
  * @param format     Format pattern
  * @param type_name  Base type name
- * @return           Formatted hint string (static buffer)
+ * @return           Formatted hint string (to be freed)
  */
 char *format_collection_hint(const char *format, const char *type_name);
 
-- 
2.43.0


From 06f4f9df6ca0b897df71e48475caed5b9eff5490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 47/50] fix: anchor the predefined IPv4 pattern at the end

---
 includes/argus/regex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index e756311..088c008 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -97,7 +97,7 @@
     /* IPv4 address: 0-255.0-255.0-255.0-255 */
     #define ARGUS_RE_IPV4                                                                          \
         MAKE_REGEX("^((25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-"  \
-                   "9][0-9]?)",                                                                    \
+                   "9][0-9]?)$",                                                                   \
                    "IPv4")
 
     /* Simplified IPv6 pattern */
-- 
2.43.0


From 7fd1eb6bbdbcf5530c0c5632d19c298f776889d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 48/50] fix: a URL cannot contain a blank

---
 includes/argus/regex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index 088c008..4c3545e 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -124,10 +124,10 @@
         MAKE_REGEX("^(?=.{1,253}$)((?!-)[A-Za-z0-9-]{1,63}(?<!-)\\.)+[A-Za-z]{2,}$", "domain")
 
     /* URL pattern - supports many protocols */
-    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#].[^\\s]*$", "URL")
+    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#][^\\s]+$", "URL")
 
     /* More specific URL patterns */
-    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#].[^\\s]*$", "HTTP-URL")
+    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#][^\\s]+$", "HTTP-URL")
 
     /* Basic port number (1-65535) */
     #define ARGUS_RE_PORT                                                                          \
-- 
2.43.0


From ea7b89cdc1597824be321bf27dde6dcf5da3319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 49/50] fix: a regular expression validator ignored a newline
 at the end of the value

---
 source/callbacks/validators/regex_validator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/validators/regex_validator.c b/source/callbacks/validators/regex_validator.c
index 797b3a0..287bde6 100644
--- a/source/callbacks/validators/regex_validator.c
+++ b/source/callbacks/validators/regex_validator.c
@@ -45,8 +45,9 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
 
     int         errorcode;
     PCRE2_SIZE  erroroffset;
-    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED, 0, &errorcode,
-                                   &erroroffset, NULL);
+    // '$' is the end of the value, a trailing newline is not ignored
+    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED,
+                                   PCRE2_DOLLAR_ENDONLY, &errorcode, &erroroffset, NULL);
 
     if (re == NULL) {
         PCRE2_UCHAR buffer[256];
-- 
2.43.0


From 3e267ad4bab7f22c0d7606eaa3e1bf1f9a817ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 50/50] fix: table validation hung when a refused default
 needed a report larger than a pipe

---
 source/utils/stream.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index cc22e04..ec80f77 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -77,10 +77,14 @@ int stream_redirect(int fd)
         return STREAM_ERROR_DUP_FAILED;
     }
 
+    // Nobody reads while the text is written: what the pipe cannot hold is dropped, not waited for
+    int flags = fcntl(info->pipe_fds[1], F_GETFL);
+    fcntl(info->pipe_fds[1], F_SETFL, flags | O_NONBLOCK);
+
     close(info->pipe_fds[1]);
     info->pipe_fds[1] = -1;
 
-    int flags = fcntl(info->pipe_fds[0], F_GETFL);
+    flags = fcntl(info->pipe_fds[0], F_GETFL);
     fcntl(info->pipe_fds[0], F_SETFL, flags | O_NONBLOCK);
 
     info->fd        = fd;
-- 
2.43.0

