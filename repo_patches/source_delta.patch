From 9635a7eb79b6bd8a14a85c4ceab17b5a98d99a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 01/31] fix: resolve forward-referenced rst operands in the
 second pass

The second pass added 0xC7 before write_arg (which adds it again and rejects the
result) and did not restore the output position of the placeholder.
---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From a0d9d450473ffd75ddee4ab3ee6f99b33d389b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 02/31] fix: do not truncate label values of ten or more
 characters when expanding expressions

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..d52ccd8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -842,7 +842,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
+				char buf[16];
 				snprintf (buf, sizeof(buf), "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
-- 
2.43.0


From 5ea7177e18d3f007ea527410076fb5c598a04764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 03/31] fix: list_remove no longer dereferences NULL when the
 node is not in the list

---
 list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.cpp b/list.cpp
index cadf1df..1347e23 100644
--- a/list.cpp
+++ b/list.cpp
@@ -75,7 +75,7 @@ EXPORT list_t *list_remove (list_t *first_node, list_t *remove_node) {
 
 	// otherwise, find the node before the node to remove
 	curr_node = first_node;
-	while (curr_node->next != remove_node && curr_node != NULL)
+	while (curr_node != NULL && curr_node->next != remove_node)
 		curr_node = curr_node->next;
 
 		// then move around pointers
-- 
2.43.0


From 44b2282d146fe62ba8ebb283df145072b82240a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 04/31] fix: eb_insert returns the position for empty text and
 avoids pointer arithmetic across objects

---
 expand_buf.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..5edae98 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -36,49 +36,45 @@ int eb_append(expand_buf_t *eb, const char *text, size_t len) {
  */
 
 int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
-	unsigned char *ptr;
+	size_t used, pos;
 
 	if (text == NULL)
 		return offset;
 	
+	used = buf->end - buf->start;
 	if (offset == -1)
-		ptr = buf->end;
+		pos = used;
 	else
-		ptr = buf->start + offset;
+		pos = offset;
 
 	if (length == -1)
 		length = strlen (text);
 
 	if (length == 0)
-		return 0;
+		return (int) pos;
 
 	//if the string's too long for the buffer to hold, expand it
-	if ((size_t) (buf->end + length - buf->start) > buf->size) {
-		unsigned char *old_start = buf->start;
+	if (used + length > buf->size) {
 		if (buf->size == 0)
 			buf->size = 1;
-		while ((size_t) (buf->end + length - buf->start) > buf->size)
+		while (used + length > buf->size)
 			buf->size *= 2;
 		buf->start = (unsigned char *) realloc (buf->start, buf->size);
 		if (buf->start == NULL) {
 			puts ("Expand buf out of memory.");
 			exit (1);
 		}
-		ptr += buf->start - old_start;
-		buf->end += buf->start - old_start;
 	}
 
-	//copy the string to the buffer and move the pointer forward
-	if (ptr < buf->end) {
-		//if necessary, move the end of the buffer forwards first
-		unsigned char *curr_ptr;
-		for (curr_ptr = buf->end - 1; curr_ptr >= ptr; curr_ptr--)
-			*(curr_ptr + length) = *curr_ptr;
-	}
-	strncpy ((char *) ptr, text, length);
-	buf->end += length;
+	//if necessary, move the end of the buffer forwards first
+	if (pos < used)
+		memmove (buf->start + pos + length, buf->start + pos, used - pos);
+
+	//copy the string to the buffer and move the end forward
+	strncpy ((char *) buf->start + pos, text, length);
+	buf->end = buf->start + used + length;
 
-	return offset + length;
+	return (int) (pos + length);
 }
 
 
-- 
2.43.0


From 6633ec0bbbc1963e9af7fd7b57407beb0f23ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 05/31] fix: report too many reusable labels instead of writing
 past the table

---
 storage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage.cpp b/storage.cpp
index ece6b5f..4187716 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -511,6 +511,11 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
+	if (curr_reusable >= MAX_REUSABLES) {
+		show_fatal_error ("Too many reusable labels - only %d are allowed", MAX_REUSABLES);
+		return;
+	}
+
 	reusables[curr_reusable++] = program_counter;
 	total_reusables = curr_reusable;
 }
@@ -534,7 +539,7 @@ int set_curr_reusable(int index) {
  * Search reusables
  */
 unsigned int search_reusables(int index) {
-	if (index == -1 || index >= total_reusables) {
+	if (index < 0 || index >= total_reusables) {
 		show_error("Referenced undefined reusable label");
 		return 0;
 	} else {
-- 
2.43.0


From 5d08c44f4dfbdc440bc56e632ad6479595fe8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 06/31] fix: never write past the output buffer and reject
 seeks outside it

---
 directive.cpp | 12 ++++++++----
 pass_one.cpp  |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..b8687e3 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -131,7 +131,7 @@ char *handle_directive (const char *ptr) {
 			program_counter += size;
 			stats_datasize += size;
 
-			while (size-- > 0)
+			while (size-- > 0 && !error_occurred)
 				write_out (fill_value & 0xFF);
 
 			//listing_on = old_listing_on;
@@ -444,12 +444,16 @@ addinstr_fail:
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			long long offset = (out_ptr - output_contents) + ((long long) value - (int) program_counter);
+			if (offset > output_buf_size) {
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			} else if (offset < 0) {
 				show_fatal_error ("Seek value %d too small", value);
+				break;
+			}
 		
-			out_ptr += value - ((int) program_counter);
+			out_ptr = output_contents + offset;
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
 			program_counter = value;
 			break;
diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..8853975 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -65,6 +65,13 @@ int write_out (int val) {
 		listing_width++;
 	}
 
+	//make sure there's room left in the output buffer
+	if ((size_t) (out_ptr - output_contents) >= output_buf_size) {
+		if (!error_occurred)
+			show_fatal_error ("Output is larger than %u bytes", output_buf_size);
+		return val;
+	}
+
 	//if (mode & MODE_NORMAL)
 	*(out_ptr++) = val;
 
-- 
2.43.0


From 9cc98345e21d4b82d8b1232b63dd14cc8d258f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 07/31] fix: -D without a value no longer reads the next
 command line argument

---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..b15a6be 100644
--- a/main.cpp
+++ b/main.cpp
@@ -361,7 +361,9 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
+				if (*ptr != '\0')
+					ptr++;
+				if (*skip_whitespace (ptr) != '\0')
 					define->contents = strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
-- 
2.43.0


From d22518056b89368e39699b659488a43fcf346a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 08/31] fix: defines given after -A on the command line keep
 their case

---
 main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.cpp b/main.cpp
index b15a6be..48e018f 100644
--- a/main.cpp
+++ b/main.cpp
@@ -333,6 +333,7 @@ int main (int argc, char **argv)
 			//and the case-sensitive flag
 			case 'A':
 				case_sensitive = true;
+				set_case_sensitive (case_sensitive);
 				break;
 			//handle adding defines
 			case 'D':
-- 
2.43.0


From 63cfbbbeac0128bccdc45791abc9922392285d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 09/31] fix: only the last path component determines a file
 name's extension

---
 export.cpp | 5 +++--
 utils.cpp  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..dcd94c3 100644
--- a/export.cpp
+++ b/export.cpp
@@ -117,8 +117,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 
 	//get the type from the extension of the output filename
+	//(a dot in a directory name doesn't start an extension)
 	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
+	if (i != 0 && strpbrk(output_filename + i, "/\\") == NULL) {
 		const char *ext = output_filename + i + 1;
 
 		int type;
@@ -160,7 +161,7 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 	strcpy(prgmname, output_filename);
 	
 	for (i = strlen (prgmname); prgmname[i] != '.' && i; i--);
-	if (i != 0)
+	if (i != 0 && strpbrk(prgmname + i, "/\\") == NULL)
 		prgmname[i] = '\0';
 
 	//then decide how to write the contents
diff --git a/utils.cpp b/utils.cpp
index d52ccd8..d666329 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -751,8 +751,9 @@ char *change_extension (const char *filename, const char *ext) {
 	char *new_fn = (char *) malloc(strlen(filename) + strlen(ext) + 2);
 	strcpy(new_fn, filename);
 	
+	//a dot in a directory name doesn't start an extension
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From ac5b4b0f282424ae7d77b71019aea8f795f6fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 10/31] fix: name TI-82 programs after the file without its
 directory

---
 export.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index dcd94c3..6e14ca4 100644
--- a/export.cpp
+++ b/export.cpp
@@ -470,25 +470,17 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname);
+	while (baseName > prgmname && baseName[-1] != '/' && baseName[-1] != '\\') {
+		baseName -= 1;
+	}
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From 43b985b38600eb22925f9a345affd8257885fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 11/31] fix: reject fcreate buffer numbers outside the buffer
 table

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 8853975..6ed6e33 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -345,7 +345,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
+			if (parse_num(buf, &value) && value >= 0 && value < MAX_BUFFERS) {
 				cur_buf = value;
 			} else {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
-- 
2.43.0


From 1151e3ae51c7e40a6817eff159b00fcefae18ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 12/31] fix: parse_suffix does not read in front of the
 mnemonic

---
 pass_one.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 6ed6e33..1730ffd 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -22,7 +22,7 @@ static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
-int parse_suffix (char **opcode_end);
+int parse_suffix (const char *name_start, char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
@@ -296,7 +296,7 @@ char *handle_opcode_or_macro (char *ptr) {
 	char *opcode_end = name_end;
 	int suffix = -1;
 	if (mode & MODE_EZ80)
-		suffix = parse_suffix(&opcode_end);
+		suffix = parse_suffix(name_start, &opcode_end);
 
 	//try to match it against opcodes first
 	curr_opcode = all_opcodes;
@@ -544,8 +544,12 @@ char *handle_opcode_or_macro (char *ptr) {
  * argument is set to the end of the main opcode.
  */
 
-int parse_suffix(char **opcode_end) {
+int parse_suffix(const char *name_start, char **opcode_end) {
 	char *suffix_ptr = *opcode_end;
+	//never look at anything in front of the name
+	size_t len = suffix_ptr - name_start;
+	if (len < 2)
+		return -1;
 	char last1 = tolower(*--suffix_ptr);
 	if (last1 == 's' || last1 == 'l') {
 		char last2 = tolower(*--suffix_ptr);
@@ -553,13 +557,13 @@ int parse_suffix(char **opcode_end) {
 			*opcode_end = suffix_ptr;
 			return (last1 == 'l' ? SUFFIX_L : 0) | (adl_mode ? SUFFIX_IL : 0);
 		}
-		if (last2 == 'i') {
+		if (last2 == 'i' && len > 2) {
 			last2 = tolower(*--suffix_ptr);
 			if (last2 == '.') {
 				*opcode_end = suffix_ptr;
 				return (adl_mode ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-			if (*--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
+			if (len > 3 && *--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
 				*opcode_end = suffix_ptr;
 				return (last2 == 'l' ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-- 
2.43.0


From 77a0303263498ad79f08558292dda701f469be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 13/31] fix: warnings no longer abort the assembly as fatal
 errors

---
 errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..2b05aeb 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -123,7 +123,7 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		DWORD dwError = lpError->dwErrorCode;
-		if (IsSPASMErrorFatal(dwError))
+		if (!lpError->fIsWarning && IsSPASMErrorFatal(dwError))
 		{
 			fIsFatal = true;
 			break;
@@ -144,7 +144,7 @@ static void ReplayErrorRecursive(const list_t *pList, bool fFatalOnly)
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		if (fFatalOnly) 
 		{
-			if (!IsSPASMErrorFatal(lpError->dwErrorCode))
+			if (!lpError->fIsWarning && !IsSPASMErrorFatal(lpError->dwErrorCode))
 			{
 				return;
 			}
@@ -250,7 +250,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
-- 
2.43.0


From b450208aa692e99de3ca4477700fa0649ddd4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 14/31] fix: printed errors and warnings are reflected in the
 exit status

---
 errors.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index 2b05aeb..0593a35 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -38,6 +38,9 @@ static void PrintSPASMError(const LPERRORINSTANCE lpError)
 	assert(lpError != NULL);
 	if ((lpError->dwErrorCode != SPASM_ERR_SUCCESS) || (lpError->lpszErrorText != NULL))
 	{
+		EXIT_STATUS status = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+		if (exit_code < status) exit_code = status;
+
 		WORD orig_attributes = save_console_attributes();
 		set_console_attributes(lpError->fIsWarning ? COLOR_YELLOW : COLOR_RED);
 		if (lpError->lpszAnnotation != NULL)
-- 
2.43.0


From b9a4817fcd053583b78ae2961959a6423b952d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 15/31] fix: skip all of the extra arguments given to a macro

---
 utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index d666329..f6ed601 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -283,6 +283,8 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 			{
 				if (num_args >= define->num_args) {
 					SetLastSPASMWarning(SPASM_WARN_MACRO_TOO_MANY_ARGS, define->name);
+					//skip the rest of the arguments
+					while (extract_arg_string(&ptr, &context) != NULL);
 					break;
 				}
 
-- 
2.43.0


From 06988652bf31a117cfccfb9850c323683fc6f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 16/31] fix: empty and one or two byte source files can be read

---
 utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index f6ed601..93e99e6 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -703,10 +703,8 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		//(a file too short for the marker doesn't have one)
+		matched &= c != EOF && (unsigned char)c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From c8d5e757f0755b4fcc06c99163abf23171bae7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 17/31] fix: report operands of .org, .fill, .seek and equates
 that are not known on the first pass

---
 directive.cpp | 12 ++++++------
 parser.cpp    | 18 ++++++++++++++++++
 parser.h      |  1 +
 pass_one.cpp  |  2 +-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index b8687e3..82eaf84 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -77,7 +77,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +104,14 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			parse_num_now (szSize, &size);
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				parse_num_now (szFill, &fill_value);
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -365,8 +365,7 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
-			} else {
+			if (parse_num_now (value_str, &value)) {
 				if (last_label == NULL)
 					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 				else
@@ -440,7 +439,8 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
diff --git a/parser.cpp b/parser.cpp
index ea53f75..a15d1b0 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -125,6 +125,24 @@ bool parse_num (const char *expr, int *value) {
 	return (result != NULL);
 }
 
+/*
+ * Parses an expression whose value is needed
+ * on the first pass and can't be filled in
+ * later, reports forward references
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	bool result = parse_num (expr, value);
+
+	if (!result && !IsSPASMErrorSessionFatal(session))
+		show_error ("The value of '%s' must be known on the first pass", expr);
+
+	ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+	return result;
+}
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index 6cb90f9..ffe1d8e 100644
--- a/parser.h
+++ b/parser.h
@@ -8,6 +8,7 @@
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
+bool parse_num_now (const char *expr, int *value);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
diff --git a/pass_one.cpp b/pass_one.cpp
index 1730ffd..c844195 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -252,7 +252,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		ptr++;
 		read_expr (&ptr, value_str, "");
 
-		if (parse_num (value_str, &value) == true)
+		if (parse_num_now (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
 				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-- 
2.43.0


From e8f7953ae2bb7847afa0528ca26421e813676ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 18/31] fix: keep zero bytes and the text after them in string
 data

---
 directive.cpp |  6 +++---
 utils.cpp     | 23 ++++++++++++++++++-----
 utils.h       |  1 +
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 82eaf84..ae38aae 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -549,7 +549,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			if (*next != '\0') 
 				goto echo_error;
 			
-			reduce_string (word);
+			size_t length = reduce_string_len (word);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
@@ -560,8 +560,8 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			else if (type == ES_FCREATE) {
 				eb_append((expand_buf_t *) echo_target, word, strlen(word));
 			} else {
-				int i;
-				for (i = 0; word[i]; i++) {
+				size_t i;
+				for (i = 0; i < length; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index 93e99e6..af1dd98 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -542,12 +542,23 @@ char *escape_string(const char *input)
  */
 
 char* reduce_string (char* input) {
+	reduce_string_len (input);
+	return input;
+}
+
+/*
+ * Same as reduce_string, but returns the
+ * length of the result (which may contain
+ * zero bytes written as control characters)
+ */
+
+size_t reduce_string_len (char* input) {
 	char *output = input;
 
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
 	{
-		if (input[i] == '\\')
+		if (input[i] == '\\' && input[i + 1] != '\0')
 		{
 			int value;
 			char pbuf[8] = "'\\ '";
@@ -567,18 +578,20 @@ char* reduce_string (char* input) {
 	}
 
 	*output = '\0';
+	size_t length = output - input;
 
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && input[length - 1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			length -= 2;
+			memmove(input, input + 1, length);
+			input[length] = '\0';
 		}
 	}
 	
-	return input;
+	return length;
 }
 
 /*
diff --git a/utils.h b/utils.h
index 2d25844..b174fa6 100644
--- a/utils.h
+++ b/utils.h
@@ -32,6 +32,7 @@ char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
 char *reduce_string (char* input);
+size_t reduce_string_len (char* input);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From 3c506f2e36fd8d82a1e448fa0b391c2b61a4a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 19/31] fix: finding the end of a line of code never reads in
 front of the line

---
 utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index af1dd98..fbeab3a 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -113,8 +113,10 @@ const char *skip_to_code_line_end(const char *ptr)
 	const char *next = next_code_line((char *) ptr);
 	if (*next == '\0')
 		return next;
-	while (is_end_of_code_line (--next)) ;
-	return next + 1;
+	//back up over the line's terminators, but never in front of the line
+	while (next > ptr && is_end_of_code_line (next - 1))
+		next--;
+	return next;
 }
 
 char *skip_whitespace (const char *ptr) {
-- 
2.43.0


From 08e3c6159c9df53020fda09a04929fcc9ba0479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:27 +0000
Subject: [PATCH 20/31] fix: a character literal at the end of the text is not
 read past

---
 parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index a15d1b0..394e814 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -307,7 +307,11 @@ static const char *parse_single_num (const char *expr, int *value) {
 				}
 			}
 
-			if (*(++expr) != '\'') {
+			//don't go past the end of the text
+			if (*expr != '\0')
+				expr++;
+
+			if (*expr != '\'') {
 				show_warning ("Literal char is missing single quote at end");
 			} else {
 				expr++;
-- 
2.43.0


From 703de20445971279dd6376e6a1ebf84c32d82d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:29 +0000
Subject: [PATCH 21/31] fix: a number prefix without digits is an error

---
 parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 394e814..0063d65 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -681,7 +681,8 @@ static bool conv_generic(const char *str, const char *end, int *output_num,
 	char *ep;
 	long long value = _strtoi64(str, &ep, base);
 
-	if (ep < end) {
+	// an empty literal is not a number (strtoll may also have gone past the end looking for one)
+	if (ep < end || str == end) {
 		char *number = strndup(str, end - str);
 		SetLastSPASMError(error_code, *ep, number);
 		free(number);
-- 
2.43.0


From e686000d693e56bc29775af4eac7d0b3867f564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 22/31] fix: macros named like the beginning of a fcreate
 function (r, c, w, b) were taken for it

---
 pass_one.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index c844195..9c0bec0 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -340,7 +340,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (name_end - name_start == 3 && !strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -351,7 +351,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
 			}
 			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
@@ -359,7 +359,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
 			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 2 && !strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -369,7 +369,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
 			ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
-- 
2.43.0


From 36237601f25743ca2dcbdfcaef95fdd758d6144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 23/31] fix: code behind the #endif that ends a skipped branch
 is assembled, and the block is counted as ended; an #if condition without
 value is false

---
 preop.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..f954706 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -23,6 +23,18 @@ static define_t *last_define = NULL;
 static int nIfLevel = 0;
 static bool fInMacro = false;
 
+/*
+ * Ends the current #IF block at its #ENDIF,
+ * returns a pointer to what separates it
+ * from the code behind it
+ */
+
+static char *end_if (char *ptr) {
+	if (nIfLevel > 0)
+		nIfLevel--;
+	return next_code_line (ptr) - 1;
+}
+
 /*
  * Handles a preop, returns the new
  * location in the file
@@ -88,6 +100,8 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until(ptr, &line_num, 1, "#endif");
 				EndSPASMErrorSession(session);
+				if (line_has_word(ptr, _T("#endif"), 6))
+					ptr = end_if(ptr);
 				break;
 			}
 		case 3: //IFDEF
@@ -147,6 +161,8 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
 				EndSPASMErrorSession(session);
+				if (line_has_word(ptr, _T("#endif"), 6))
+					ptr = end_if(ptr);
 			}
 			break;
 		}
@@ -620,7 +636,7 @@ char *handle_preop_import (char *ptr) {
 char *handle_preop_if (char *ptr) {
 	const char *expr_end;
 	char *expr;
-	int condition;
+	int condition = 0;
 
 	if (is_end_of_code_line (ptr)) {
 		SetLastSPASMError(SPASM_ERR_EXPRESSION_EXPECTED);
@@ -665,6 +681,10 @@ char *do_if (char *ptr, int condition)
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else if (line_has_word(result, _T("#endif"), 6))
+		{
+			result = end_if(result);
+		}
 		return result;
 	}
 }
-- 
2.43.0


From c915764c35081e091dcc6424998cc45137733805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:06 +0000
Subject: [PATCH 24/31] fix: data items without a value are errors instead of
 being left out silently

---
 directive.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index ae38aae..c7e7832 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -546,8 +546,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		if (word[0] == '"')
 		{
 			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
+			if (*next != '\0') {
+				session = StartSPASMErrorSession();
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
 				goto echo_error;
+			}
 			
 			size_t length = reduce_string_len (word);
 			if (type == ES_ECHO)
@@ -723,6 +726,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						}
 						free (expr);
 					}
+					else
+					{
+						ReplaySPASMErrorSession(session);
+					}
 					remove_arg_set (args);
 				}
 				else
-- 
2.43.0


From 145595b9b281a3d57c865145a2dac9ea10e29fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 25/31] fix: checksum of Intel HEX page records above page 255

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 6e14ca4..694c4dd 100644
--- a/export.cpp
+++ b/export.cpp
@@ -665,7 +665,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page + (page >> 8))) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From ddc91296c2040fed68902604caa0f5cdb4229b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:55 +0000
Subject: [PATCH 26/31] fix: an application whose signature does not fit on its
 first page is an error, as on the other pages

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 694c4dd..3f63bc0 100644
--- a/export.cpp
+++ b/export.cpp
@@ -223,7 +223,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size + 96 > 16384)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
-- 
2.43.0


From 54e5fffe15226b59d0c1cc603478badc023b5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 27/31] fix: lengths in TI-85 and TI-86 string files and in
 files with names longer than eight characters

---
 export.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/export.cpp b/export.cpp
index 3f63bc0..cbd5faa 100644
--- a/export.cpp
+++ b/export.cpp
@@ -488,6 +488,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	/* only eight characters of the name are written */
+	if (strlen (namestring) > 8)
+		namestring[8] = '\0';
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
@@ -516,7 +519,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
 	} else {
 		fputc (fileheader[i++],outfile);
@@ -531,14 +534,14 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
-- 
2.43.0


From 6fabf3d1f36252399ee5ce00d9898540d70f9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:11 +0000
Subject: [PATCH 28/31] fix: third signature byte of TI-85 files

---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index cbd5faa..aa0f53c 100644
--- a/export.cpp
+++ b/export.cpp
@@ -521,6 +521,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (fileheader[i++],outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From ac20c08649fe02fa06279790344da8f7784b6652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:11 +0000
Subject: [PATCH 29/31] fix: .echo to a file named by a long macro overflowed
 its buffers

---
 directive.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index c7e7832..3c49834 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -262,16 +262,14 @@ addinstr_fail:
 
 				// Is the filename given a macro?
 				if ((define = search_defines (filename)))
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+					snprintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					snprintf(temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					snprintf(temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
-- 
2.43.0


From f8bad3ec280f0ffe2ce27b8ca6ecda79aead981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:13 +0000
Subject: [PATCH 30/31] fix: #import of a missing file opened a null file name
 and did not say which

---
 preop.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index f954706..4cd8cb3 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -605,10 +605,9 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
-	if (!import_file)
+	if (!file_path || !(import_file = fopen(file_path, "rb")))
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From 33b62903e56719452feac200ea8c8ccfead643c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:41 +0000
Subject: [PATCH 31/31] fix: -D with an empty name crashed

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index 48e018f..2f073f8 100644
--- a/main.cpp
+++ b/main.cpp
@@ -362,6 +362,10 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (strdup (name), NULL);
+				if (define == NULL) {
+					printf ("%s used without define name\n", argv[curr_arg]);
+					break;
+				}
 				if (*ptr != '\0')
 					ptr++;
 				if (*skip_whitespace (ptr) != '\0')
-- 
2.43.0

