From d2cdf67c313a73171d0acdd6ae1f208ac02de2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 001/150] fix: leave the application arguments after --
 untouched

remove_args() also dropped words matching a tolerated compiler flag when
they follow the double dash, where they belong to the executed program.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index da30183..8826017 100644
--- a/src/main.c
+++ b/src/main.c
@@ -414,6 +414,7 @@ char** remove_args(int* argc, char** argv,
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
+        if (strcmp(argv[i], "--") == 0) break; // app arguments follow
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From 391be3e2fafc767927ca6ba149b67449e24590b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 002/150] fix: take everything after -- as application
 arguments, whatever the number of files

The separator index was computed from the permuted file index and was
only right with exactly one file: without files the first argument was
taken as a source, with more files the last ones were not compiled.
---
 src/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8826017..74a52ab 100644
--- a/src/main.c
+++ b/src/main.c
@@ -271,7 +271,8 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  // files are permuted right before opt.i, app arguments start there
+		  arg_separator = opt.i; break;
 	  }
   }
   if(!CJIT->quiet)
@@ -300,7 +301,7 @@ int main(int argc, char **argv) {
   int left_args = arg_separator? arg_separator: argc;
 
   char *stdin_code = NULL;
-  if(opt.ind >= argc) {
+  if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
 		  cjit_status(CJIT);
-- 
2.43.0


From 38680060de63fd88c5164af7b0c847f932b2fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 003/150] fix: do not run or link a program when one of its
 files is rejected

The results of compiling a source and of adding a file were ignored.
---
 src/cjit.c | 4 ++--
 src/main.c | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..083a87b 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -454,10 +454,10 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
 	debug("+S %s",path);
-	return true;
+	return((res<0)?false:true);
 }
 
 bool cjit_add_file(CJITState *cjit, const char *path) {
diff --git a/src/main.c b/src/main.c
index 74a52ab..afd5d44 100644
--- a/src/main.c
+++ b/src/main.c
@@ -134,8 +134,9 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1])) {
+		  res = 1;
+	  } else if(cjit_link(CJIT)<0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -369,7 +370,7 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path)) goto endgame;
 		  }
 	  }
   }
-- 
2.43.0


From 09c1f9bed5b2870118017bfa79da8a6d6dd490bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 004/150] fix: -c of a rejected source fails and writes no
 object

---
 src/cjit.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 083a87b..9b166d6 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -500,12 +500,16 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	int res;
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
+		res = tcc_output_file(tcc(cjit),
 				cjit->output_filename);
 	} else {
 		char *ext;
@@ -520,10 +524,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
-- 
2.43.0


From 50b9f1428943686d10e0ca98e4dffd2a1bfffbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 005/150] fix: -C passes the cjit state to cjit_set_tcc_options

It passed the tinycc state, so any use of -C crashed.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index afd5d44..02391a7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -209,7 +209,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From 862738f5d4f5d9a547ee38f2fe3fd322f7ea7178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 006/150] fix: tolerated flags -g, -W and -M alone do not drop
 the next word

They take no separate value, so 'cjit -g file.c' lost its source file.
---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 02391a7..291289d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -104,6 +104,9 @@ const char *ignored_args[] = {
 	"-static-libgcc",
 	"-shared",
 	"-O",
+	"-g",
+	"-W",
+	"-M",
 	"-O:",
 	"-f:",
 	"-W:",
-- 
2.43.0


From 81a8967958065ec62c9c6cecc10683823ff80d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 007/150] fix: load_stdin appended to an uninitialised buffer

The first line was concatenated to whatever realloc returned; also avoid
the quadratic strlen/strcat and keep getline's size in step with its
buffer.
---
 src/file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..fe62957 100644
--- a/src/file.c
+++ b/src/file.c
@@ -85,6 +85,7 @@ char *load_stdin() {
 	char *code = NULL;
 	char *line = NULL;
 	size_t len = 0;
+	size_t used = 0;
 	ssize_t rd;
 	fflush(stdout);
 	fflush(stderr);
@@ -94,15 +95,18 @@ char *load_stdin() {
 			free(line);
 			break;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
+		code = realloc(code, used + rd + 1);
 		if (!code) {
 			fail("malloc error");
 			free(line);
 			return NULL;
 		}
-		strcat(code, line);
+		memcpy(code + used, line, rd);
+		used += rd;
+		code[used] = 0x0;
 		free(line);
 		line = NULL;
+		len = 0;
 	}
 	return(code);
 #endif
-- 
2.43.0


From 8ceb69ce11d54927da7c16af7624275eb145aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 008/150] fix: messages longer than the buffer overflowed the
 stack

vsnprintf returns the untruncated length, which was used as an index.
---
 src/cjit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 9b166d6..7b2ab61 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -704,6 +704,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  if(len>=MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -718,6 +720,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  if(len>=MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-- 
2.43.0


From 9ced6391e911d3711f6c961bbbf5790662b7851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 009/150] fix: do not read past an empty version string

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 291289d..780da83 100644
--- a/src/main.c
+++ b/src/main.c
@@ -280,7 +280,7 @@ int main(int argc, char **argv) {
 	  }
   }
   if(!CJIT->quiet)
-	_err("cjit version %s (c) 2024-2025 Dyne.org foundation",&VERSION[1]);
+	_err("cjit version %s (c) 2024-2025 Dyne.org foundation",VERSION[0]?&VERSION[1]:"");
 
 #if 0
   // If no arguments then start the REPL
-- 
2.43.0


From 43ccefddc8087ae298f731baa9535efb2af1015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 010/150] fix: --xass prints its path as text and reports a
 failed extraction

The path was used as a format string (or was NULL after a failure).
---
 src/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 780da83..1ca63a8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -252,12 +252,13 @@ int main(int argc, char **argv) {
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
 		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
+			  _err("Extracting runtime assets to: %s",opt.arg);
 		  }
-		  _out(CJIT->tmpdir);
+		  if(!extract_assets(CJIT,opt.arg)) {
+			  cjit_free(CJIT);
+			  exit(1);
+		  }
+		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
 		  exit(0);
 #endif
-- 
2.43.0


From 96a3335a8d05d7d7b332e6097e7d797eb27278ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 011/150] fix: a tar member larger than the archive was read
 out of bounds

---
 src/muntar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..1422545 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -287,6 +287,7 @@ int mtar_load(mtar_t *tar, const char *name,
 	if (err != MTAR_ESUCCESS) return err;
 	err = mtar_read_header(tar, &(tar->iterator.header));
 	if (err != MTAR_ESUCCESS) return err;
+	if (tar->iterator.header.size > tar->max - 512) return MTAR_EREADFAIL;
 	tar->iterator.offset = 0;
 	tar->iterator.cursor = 512;
 	return MTAR_ESUCCESS;
@@ -319,6 +320,8 @@ int mtar_next(mtar_t *tar)
 	if (err != MTAR_ESUCCESS) goto ESCAPE;
 	err = mtar_read_header(tar, &tar->iterator.header);
 	if (err != MTAR_ESUCCESS) goto ESCAPE;
+	err = MTAR_EREADFAIL; // contents must lie inside the buffer
+	if (tar->iterator.header.size > tar->max - (position + 512)) goto ESCAPE;
 	tar->iterator.offset = position;
 	tar->iterator.cursor = position + 512;
 	return MTAR_ESUCCESS;
-- 
2.43.0


From 41a3dcd530460c651b4cf3f32695430e3e889d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 012/150] fix: a corrupt or truncated tar archive is an error

A bad header after the first one, or a missing end of archive, silently
ended the extraction as a success.
---
 src/muntar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 1422545..c8d12b3 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -102,7 +102,7 @@ static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 	chksum2 = (uint32_t) decodeTarOctal(rh->checksum, sizeof(rh->checksum));
 	if (chksum1 != chksum2) return MTAR_EBADCHKSUM;
 
-	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_ENULLRECORD;
+	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_EFAILURE;
 
 	h->mode     = (uint32_t) decodeTarOctal(rh->mode, sizeof(rh->mode));
 	h->uid      = (uint32_t) decodeTarOctal(rh->uid, sizeof(rh->uid));
@@ -200,7 +200,8 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			makedir(tpath);
 			break;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
+		if(res != MTAR_ESUCCESS && res != MTAR_ENULLRECORD) return(res);
 	}
 	mtar_rewind(&tar);
 	while(!mtar_eof(&tar)) {
-- 
2.43.0


From f76dbb55c12a82bb4522f76e6dcf07e8fd0c1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 013/150] fix: tar extraction reports short and failed writes

---
 src/muntar.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index c8d12b3..4a4efcc 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -229,9 +229,15 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			size_t written = fwrite(&tar.buffer[tar.iterator.cursor],
+						1,header->size,fp);
+			if(fclose(fp)!=0 || written!=header->size) {
+				fprintf(stderr,
+					"Error writing file: %s\n",
+					tpath);
+				perror("Reason: ");
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		mtar_next(&tar);
-- 
2.43.0


From 876df97b19fbc06c97096af9e657f95043d07df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 014/150] fix: tar members named with .. escaped from the
 destination

---
 src/muntar.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 4a4efcc..6f96f3b 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -165,6 +165,17 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true when a path has a component named ..
+static int has_dotdot(const char *path) {
+	const char *p;
+	for(p = path; *p; p++) {
+		if((p==path || p[-1]=='/' || p[-1]=='\\')
+		   && p[0]=='.' && p[1]=='.'
+		   && (p[2]==0x0 || p[2]=='/' || p[2]=='\\')) return(1);
+	}
+	return(0);
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -185,6 +196,11 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		p = tpath+pathlen;
 		*p = '/'; p++;
 		mtar_header(&tar, &header);
+		if(has_dotdot(header->path) || has_dotdot(header->name)) {
+			fprintf(stderr,"Member outside of destination: %s%s%s\n",
+				header->path,header->path[0]?"/":"",header->name);
+			return(MTAR_EFAILURE);
+		}
 		switch(header->type) {
 		case MTAR_TDIR:
 			if(header->path[0]!=0) { // subdir
-- 
2.43.0


From 2176c7c8ff4194e50b79dcb4a1c785c4e914ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 015/150] fix: extract tar members whose parent directory comes
 later or never

A member was lost, or stopped the extraction, unless an entry for its
directory came earlier in the archive.
---
 src/muntar.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 6f96f3b..03e939b 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -165,6 +165,18 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// create every missing parent directory of a path, after its first
+// skip characters
+static void make_parents(char *path, size_t skip) {
+	char *p;
+	for(p = path+skip; *p; p++) {
+		if(*p!='/' || p[1]==0x0) continue;
+		*p = 0x0;
+		makedir(path);
+		*p = '/';
+	}
+}
+
 // true when a path has a component named ..
 static int has_dotdot(const char *path) {
 	const char *p;
@@ -213,6 +225,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
+			make_parents(tpath,pathlen+1);
 			makedir(tpath);
 			break;
 		}
@@ -237,6 +250,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
+			make_parents(tpath,pathlen+1);
 			FILE *fp = fopen(tpath,"wb");
 			if(!fp) {
 				fprintf(stderr,
-- 
2.43.0


From c01b5e99c7eb9fdc8e014597891ae24de67712c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 016/150] fix: tar extraction reports a directory that cannot
 be created

---
 src/muntar.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 03e939b..3f83e60 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -157,14 +157,19 @@ static int mtar_rewind(mtar_t *tar) {
 ///////////////////
 
 
+#include <sys/stat.h>
 #if defined(_WIN32) || defined(WINDOWS)
 #include <windows.h>
 #define makedir(path) CreateDirectory(path, NULL)
 #else
-#include <sys/stat.h>
 #define makedir(path) mkdir(path,0755)
 #endif
 
+static int is_dir(const char *path) {
+	struct stat st;
+	return(stat(path,&st)==0 && (st.st_mode & S_IFMT)==S_IFDIR);
+}
+
 // create every missing parent directory of a path, after its first
 // skip characters
 static void make_parents(char *path, size_t skip) {
@@ -200,9 +205,12 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 	const mtar_header_t *header = NULL;
 	strcpy(tpath, path);
 	res = mtar_load(&tar, path, buf, len);
-	if(res != MTAR_ESUCCESS) return(MTAR_EOPENFAIL);
+	if(res != MTAR_ESUCCESS && res != MTAR_ENULLRECORD)
+		return(MTAR_EOPENFAIL);
 	// first create extract dir if doesn't exist
 	makedir(tpath);
+	if(!is_dir(tpath)) return(MTAR_EWRITEFAIL);
+	if(res == MTAR_ENULLRECORD) return(MTAR_ESUCCESS); // empty archive
 	while(!mtar_eof(&tar)) {
 		// then create every other subdir
 		p = tpath+pathlen;
@@ -227,6 +235,12 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			strcpy(p,header->name);
 			make_parents(tpath,pathlen+1);
 			makedir(tpath);
+			if(!is_dir(tpath)) {
+				fprintf(stderr,
+					"Error creating directory: %s\n",
+					tpath);
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		res = mtar_next(&tar);
-- 
2.43.0


From 4e7a6d9235024750bf25f1dde8335828b89efacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 017/150] fix: extract regular files marked by a NUL type as in
 pre-POSIX tar

---
 src/muntar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/muntar.c b/src/muntar.c
index 3f83e60..7ff6214 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -253,6 +253,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		*p = '/'; p++;
 		mtar_header(&tar, &header);
 		switch(header->type) {
+		case 0x0: // regular file in old archives
 		case MTAR_TREG:
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
-- 
2.43.0


From 4d05c380e88057a09fcd8ed8d76ffdf27db62eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 018/150] fix: untar gzip files of any compression ratio

The output buffer was sized ten times the input, so a well compressed
archive failed; use the size stored in the gzip trailer. Return the
error instead of calling exit from inside the library function.
---
 src/muntar.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 7ff6214..f1688a0 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -293,7 +293,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 #if !defined(NOGUNZIP)
 // gunzip and untar all in one
 #include <tinf.h>
-#define DECOMPRESSED_SIZE_RATIO 10 // raise this on errors
+#define DECOMPRESSED_SIZE_RATIO 1032 // highest possible in deflate
 int muntargz_to_path(const char *path, const uint8_t *buf,
 		    const unsigned int len) {
 	if(!buf) {
@@ -307,8 +307,24 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 		return(-1);
 	}
 	int res;
-	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
-	uint8_t *dest = malloc(destlen);
+	if(len < 18) {
+		fprintf(stderr,"%s: not a gzip file\n",__func__);
+		return(-1);
+	}
+	// uncompressed size as stored in the gzip trailer
+	unsigned int destlen = (unsigned int)buf[len-4]
+		| (unsigned int)buf[len-3]<<8
+		| (unsigned int)buf[len-2]<<16
+		| (unsigned int)buf[len-1]<<24;
+	if(destlen/DECOMPRESSED_SIZE_RATIO > len) {
+		fprintf(stderr,"%s: corrupt gzip size\n",__func__);
+		return(-1);
+	}
+	uint8_t *dest = malloc(destlen?destlen:1);
+	if(!dest) {
+		fprintf(stderr,"%s: out of memory\n",__func__);
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
@@ -317,7 +333,7 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 	if(res != TINF_OK) {
 		fprintf(stderr,"Error in gunzip decompression (untargz_to_path)\n");
 		free(dest);
-		exit(res);
+		return(res);
 	}
 	res = muntar_to_path(path, dest, destlen);
 	free(dest);
-- 
2.43.0


From 696e8c828d676eb989101765636164681ae87e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 019/150] fix: --xtgz exits with an error when the extraction
 fails

---
 src/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1ca63a8..ffbe630 100644
--- a/src/main.c
+++ b/src/main.c
@@ -270,8 +270,7 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  exit(muntargz_to_path(".",targz,len)==0?0:1);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
-- 
2.43.0


From b5849e9054ec224307149ec6c0a69f90333c575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 020/150] fix: a read error passed a FILE pointer as message
 text

---
 src/cjit.c | 3 ++-
 src/file.c | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 7b2ab61..92bb6f3 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -437,7 +437,8 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	strcpy(contents,spath);
 	free(spath);
 	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
diff --git a/src/file.c b/src/file.c
index fe62957..89e82cb 100644
--- a/src/file.c
+++ b/src/file.c
@@ -67,7 +67,9 @@ char* file_load(const char *filename, unsigned int *len) {
     // _err("Loading source file %s",filename);
 
     if(fread(contents, 1, length, file)<length) {
-		fail(file);
+		fail(filename);
+		free(contents);
+		fclose(file);
 		return NULL;
 	}
 
-- 
2.43.0


From ff894b167b0f1ef540d8079c050bab1e63f0c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 021/150] fix: accept source files shorter than three bytes

---
 src/cjit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 92bb6f3..8dccb39 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -375,10 +375,11 @@ static int detect_bom(const char *filename,size_t *filesize) {
 	*filesize = st.st_size;
 	res = read(fd,bom,3);
 	close(fd);
-	if (res!=3) {
+	if (res<0) {
 		fail(filename);
 		return -1;
 	}
+	if (res<3) memset(bom+res,0x0,3-res); // shorter than any BOM
 	// _err("%s bom: %x %x %x",filename,bom[0],bom[1],bom[2]);
 	if (bom[0] == 0xFF && bom[1] == 0xFE) {
 		return 1; // UTF-16 LE
@@ -436,7 +437,7 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
+	if(length != fread(contents+spath_len, 1, length, file)) {
 		fail(path);
 		free(contents);
 		fclose(file);
-- 
2.43.0


From 036f69d4ec1f8f1ed5d876b1434b727ffce73177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 022/150] fix: shrinking an array copied more elements than it
 allocated

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..15f4bd1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
-- 
2.43.0


From ca30b3c1ed0e794d2b85ab86b66da8cd90ce9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 023/150] fix: adding to a full array of fixed size wrote past
 its end

---
 src/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array.c b/src/array.c
index 15f4bd1..6dede7a 100644
--- a/src/array.c
+++ b/src/array.c
@@ -197,7 +197,10 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
+    {
+        if (pArr->nFixed) return 0;
         return XArray_Realloc(pArr);
+    }
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From dfdd3a55923e494369a98bda50bbf396ca113473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 024/150] fix: XArray_Delete left the freed element in the
 array

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 6dede7a..d5685b1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -310,7 +310,7 @@ xarray_data_t* XArray_Remove(xarray_t *pArr, size_t nIndex)
 
 void XArray_Delete(xarray_t *pArr, size_t nIndex)
 {
-    xarray_data_t *pData = XArray_Get(pArr, nIndex);
+    xarray_data_t *pData = XArray_Remove(pArr, nIndex);
     if (pData != NULL) XArray_ClearData(pArr, pData);
 }
 
-- 
2.43.0


From 5aed68e924e7d05a87d3f17937270f6897d8056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 025/150] fix: an element inserted at the end of an array was
 lost

---
 src/array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index d5685b1..a241cc1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -343,8 +343,13 @@ xarray_data_t* XArray_Insert(xarray_t *pArr, size_t nIndex, xarray_data_t *pData
 {
     if (!XArray_CheckSpace(pArr)) return NULL;
 
+    if (nIndex >= pArr->nUsed)
+    {
+        XArray_Add(pArr, pData);
+        return NULL;
+    }
+
     xarray_data_t *pOldData = XArray_Set(pArr, nIndex, pData);
-    if (pOldData == NULL) return NULL;
 
     size_t i, nNextIndex = nIndex + 1;
 
-- 
2.43.0


From 4c5b8305f294532068bec98391b6baa0144521e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 026/150] fix: array sorting gave wrong orders

Keys and sizes over INT_MAX overflowed the comparison, and bubble sort
also swapped the elements that were already in order.
---
 src/array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/array.c b/src/array.c
index a241cc1..8d0e806 100644
--- a/src/array.c
+++ b/src/array.c
@@ -389,7 +389,7 @@ static int XArray_CompareSize(const void *pData1, const void *pData2, void *pCtx
     (void)pCtx;
     xarray_data_t *pFirst = (xarray_data_t*)pData1;
     xarray_data_t *pSecond = (xarray_data_t*)pData2;
-    return (int)pFirst->nSize - (int)pSecond->nSize;
+    return (pFirst->nSize > pSecond->nSize) - (pFirst->nSize < pSecond->nSize);
 }
 
 static int XArray_CompareKey(const void *pData1, const void *pData2, void *pCtx)
@@ -397,7 +397,7 @@ static int XArray_CompareKey(const void *pData1, const void *pData2, void *pCtx)
     (void)pCtx;
     xarray_data_t *pFirst = (xarray_data_t*)pData1;
     xarray_data_t *pSecond = (xarray_data_t*)pData2;
-    return (int)pFirst->nKey - (int)pSecond->nKey;
+    return (pFirst->nKey > pSecond->nKey) - (pFirst->nKey < pSecond->nKey);
 }
 
 int XArray_Partitioning(xarray_t *pArr, xarray_comparator_t compare, void *pCtx, int nStart, int nFinish)
@@ -448,7 +448,7 @@ void XArray_BubbleSort(xarray_t *pArr, xarray_comparator_t compare, void *pCtx)
     {
         for (j = 0 ; j < pArr->nUsed-i-1; j++) 
         {
-            if (compare((void*)pArr->pData[j], (void*)pArr->pData[j+1], pCtx))
+            if (compare((void*)pArr->pData[j], (void*)pArr->pData[j+1], pCtx) > 0)
             {
                 xarray_data_t *pData = pArr->pData[j];
                 pArr->pData[j] = pArr->pData[j+1];
-- 
2.43.0


From 191bd48a08f3254d431213684bd130f760392d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 027/150] fix: a linker script made only its first library
 available

ld_add_file() returns 1 on success, which its caller took as an error
ending the list. Also initialise the parser state and its result.
---
 src/elflinker.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..ec7f4ef 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -204,10 +204,11 @@ static int find_library(CJITState *cjit, const char *path) {
 	if(is_ldscript) {
 		LDState s1;
 		int rr;
+		memset(&s1,0x0,sizeof(s1));
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
 		rr = resolve_ldscript(&s1, reallib);
-		if(rr<1)_err("Library not found: %s",reallib);
+		if(rr!=0)_err("Library not found: %s",reallib);
 	} else {
 		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
 	}
@@ -353,7 +354,7 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 	if(cwk_path_is_absolute(filename)) {
 		if (lstat(filename, &statbuf) == -1) {
 			fail(filename);
-			return 0;
+			return 1;
 		}
 		if (S_ISREG(statbuf.st_mode)) {
 			strcpy(tryfile,filename);
@@ -361,12 +362,12 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
 			if (len == -1) {
 				fail(filename);
-				return 0;
+				return 1;
 			}
 			tryfile[len] = 0x0;
 		} else {
 			_err("Library file not recognized: %s",filename);
-			return 0;
+			return 1;
 		}
 	} else {
 		libpaths_num = XArray_Used(s1->libpaths);
@@ -396,7 +397,7 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 		}
 	}
 	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
-	return 1;
+	return 0;
 }
 
 static int tcc_error_noabort(char *msg) {
@@ -445,10 +446,8 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
             if (ret)
                 goto lib_parse_error;
         } else {
-			ret = ld_add_file(s1, filename);
-			if (ret)
-				goto lib_parse_error;
-			if (group) {
+			// a file not found was reported, go on with the others
+			if (ld_add_file(s1, filename)==0 && group) {
 				/* Add the filename *and* the libname to avoid future conversions */
 				dynarray_add(&libs, &nblibs, tcc_strdup(filename));
 				if (libname[0] != '\0')
@@ -478,7 +477,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret = 0;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
-- 
2.43.0


From 2941e28b0ce7d062abdc3cce822c6936a902d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 028/150] fix: follow symbolic links to libraries as the system
 does

The target was cut to the length of the link's own path and always taken
as relative to its directory, or to the working directory for entries of
linker scripts, so absolute and long targets were not found.
---
 src/elflinker.c | 43 ++++++-------------------------------------
 1 file changed, 6 insertions(+), 37 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index ec7f4ef..a06e567 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -140,21 +140,11 @@ static char *new_solve_symlink(const char *path) {
         return NULL;
     }
     if (S_ISLNK(statbuf.st_mode)) {
-		int tlen = strlen(path);
-		char *tpath = malloc(tlen); // ALLOC tpath
-        ssize_t len = readlink(path, tpath, tlen-1);
-        if (len == -1) {
-			free(tpath);
-            fail(path);
+		reallib = realpath(path, NULL); // ALLOC
+		if (!reallib) {
+			fail(path);
 			return NULL;
-        }
-		tpath[len] = 0x0;
-		size_t rlen = tlen + len;
-		reallib = malloc(rlen+1); // ALLOC
-		cwk_path_get_dirname(path,&rlen);
-		memcpy(reallib,path,rlen);
-		strcpy(&reallib[rlen],tpath);
-		free(tpath);               // FREE tpath
+		}
     } else if (S_ISREG(statbuf.st_mode)) {
 		reallib = malloc(strlen(path)+1); // ALLOC
 		strcpy(reallib,path);
@@ -352,19 +342,12 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 	char *lpath;
     struct stat statbuf;
 	if(cwk_path_is_absolute(filename)) {
-		if (lstat(filename, &statbuf) == -1) {
+		if (stat(filename, &statbuf) == -1) {
 			fail(filename);
 			return 1;
 		}
 		if (S_ISREG(statbuf.st_mode)) {
 			strcpy(tryfile,filename);
-		} else if (S_ISLNK(statbuf.st_mode)) {
-			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
-			if (len == -1) {
-				fail(filename);
-				return 1;
-			}
-			tryfile[len] = 0x0;
 		} else {
 			_err("Library file not recognized: %s",filename);
 			return 1;
@@ -376,22 +359,8 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 		for(int ii=0;ii<libpaths_num;ii++) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
-			if (lstat(tryfile, &statbuf) == -1) continue;
+			if (stat(tryfile, &statbuf) == -1) continue;
 			if (S_ISREG(statbuf.st_mode)) break;
-			if (S_ISLNK(statbuf.st_mode)) {
-				int tlen = strlen(tryfile)+64;
-				char *tpath = malloc(tlen); // ALLOC tpath
-				ssize_t len = readlink(tryfile, tpath, tlen-1);
-				if (len == -1) {
-					free(tpath);
-					fail(tryfile);
-					continue;
-				}
-				tpath[len] = 0x0;
-				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
-				free(tpath);
-				break;
-			}
 			// check ELF BOM in file
 			_err("Library file not recognized: %s",tryfile);
 		}
-- 
2.43.0


From 5cfef37f38fab76c6081efe3f5893651dd9fda03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 029/150] fix: report library names of linker scripts that are
 not found

The last path tried, or an uninitialised buffer, was added instead.
---
 src/elflinker.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index a06e567..9187a51 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -353,6 +353,7 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			return 1;
 		}
 	} else {
+		bool found = false;
 		libpaths_num = XArray_Used(s1->libpaths);
 		// search in all paths if lib%s.so exists
 		// TODO: support --static here
@@ -360,10 +361,17 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
 			if (stat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
+			if (S_ISREG(statbuf.st_mode)) {
+				found = true;
+				break;
+			}
 			// check ELF BOM in file
 			_err("Library file not recognized: %s",tryfile);
 		}
+		if(!found) {
+			_err("Library not found: %s",filename);
+			return 1;
+		}
 	}
 	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
 	return 0;
-- 
2.43.0


From f94594b3b51b42f72ccc72ece272be0ff5750836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 030/150] fix: a comma ends a file name in a linker script

INPUT(a.so, b.so) looked for a file named "a.so,".
---
 src/elflinker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 9187a51..abbecdb 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -315,7 +315,7 @@ static int ld_next(LDState *s1, char *name, int name_size)
             if (!((ch >= 'a' && ch <= 'z') ||
                   (ch >= 'A' && ch <= 'Z') ||
                   (ch >= '0' && ch <= '9') ||
-                  strchr("/.-_+=$:\\,~", ch)))
+                  strchr("/.-_+=$:\\~", ch)))
                 break;
             if ((q - name) < name_size - 1) {
                 *q++ = ch;
-- 
2.43.0


From 304d81ef7a96179f718fdf1e5522bbc0eae5450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 031/150] fix: runtime assets are complete whenever they are
 used

A process starting while another one was still extracting found the
directory and compiled with missing files; one killed while extracting
left it incomplete forever. Populate under a lock and mark completion.
---
 build/init.mk |  8 ++++----
 src/cjit.c    | 56 +++++++++++++++++++++++++++++++++++++++++++++++++--
 src/cjit.h    |  2 ++
 3 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/build/init.mk b/build/init.mk
index 54bd041..ae1b677 100644
--- a/build/init.mk
+++ b/build/init.mk
@@ -40,7 +40,7 @@ embed-posix: lib/tinycc/libtcc1.a
 	bash build/embed-asset-path.sh lib/tinycc/libtcc1.a
 	bash build/embed-asset-path.sh lib/tinycc/include
 	@echo                 >> src/assets.c
-	@echo "return(true);" >> src/assets.c
+	@echo "return(cjit_assets_done(CJIT));" >> src/assets.c
 	@echo "}"             >> src/assets.c
 	@echo          >> src/assets.h
 	@echo "#endif" >> src/assets.h
@@ -52,7 +52,7 @@ embed-posix-source: lib/tinycc/libtcc1.a
 	bash build/embed-asset-path.sh lib/tinycc/include
 	bash build/embed-source.sh
 	@echo                 >> src/assets.c
-	@echo "return(true);" >> src/assets.c
+	@echo "return(cjit_assets_done(CJIT));" >> src/assets.c
 	@echo "}"             >> src/assets.c
 	@echo          >> src/assets.h
 	@echo "#endif" >> src/assets.h
@@ -66,7 +66,7 @@ embed-win: lib/tinycc/libtcc.a lib/tinycc/libtcc1.a
 	bash build/embed-asset-path.sh lib/tinycc/win32/include tinycc_win32
 	bash build/embed-asset-path.sh assets/win32ports
 	@echo                 >> src/assets.c
-	@echo "return(true);" >> src/assets.c
+	@echo "return(cjit_assets_done(CJIT));" >> src/assets.c
 	@echo "}"             >> src/assets.c
 	@echo          >> src/assets.h
 	@echo "#endif" >> src/assets.h
@@ -78,7 +78,7 @@ embed-musl: lib/tinycc/libtcc1.a
 	bash build/embed-asset-path.sh lib/tinycc/include
 	bash build/embed-asset-path.sh /lib/x86_64-linux-musl/libc.so
 	@echo                 >> src/assets.c
-	@echo "return(true);" >> src/assets.c
+	@echo "return(cjit_assets_done(CJIT));" >> src/assets.c
 	@echo "}"             >> src/assets.c
 	@echo          >> src/assets.h
 	@echo "#endif" >> src/assets.h
diff --git a/src/cjit.c b/src/cjit.c
index 8dccb39..0df7704 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -32,6 +32,9 @@
 #include <fcntl.h> // open(2)
 #include <inttypes.h>
 #include <sys/stat.h> // fstat(2)
+#if !defined(WINDOWS)
+#include <sys/file.h> // flock(2)
+#endif
 
 #define tcc(cjit) (TCCState*)cjit->TCC
 #define setup if(!cjit->done_setup)cjit_setup(cjit)
@@ -50,6 +53,55 @@ extern bool    get_winsdkpath(char *dst, size_t destlen);
 // from file.c
 extern char *new_abspath(const char *path);
 
+#if !defined(WINDOWS)
+// marks a runtime directory as completely populated
+#define ASSETS_MARK ".complete"
+
+// create the runtime directory if missing and hold a lock on it until
+// assets_done(), the directory needs to be populated if not marked
+static bool assets_lock(CJITState *cjit, const char *dir) {
+	char mark[MAX_PATH];
+	struct stat info;
+	if(mkdir(dir,0755)<0 && errno!=EEXIST) {
+		fail(dir);
+		return(false);
+	}
+	cjit->assets_fd = open(dir,O_RDONLY|O_DIRECTORY|O_CLOEXEC);
+	if(cjit->assets_fd<0) {
+		fail(dir);
+		return(false);
+	}
+	while(flock(cjit->assets_fd,LOCK_EX)<0) {
+		if(errno==EINTR) continue;
+		fail(dir);
+		close(cjit->assets_fd);
+		return(false);
+	}
+	snprintf(mark,MAX_PATH,"%s/%s",dir,ASSETS_MARK);
+	cjit->fresh = (stat(mark,&info)!=0);
+	return(true);
+}
+#endif
+
+// called when all assets are found in the runtime directory
+bool cjit_assets_done(CJITState *cjit) {
+#if !defined(WINDOWS)
+	if(cjit->fresh) {
+		char mark[MAX_PATH];
+		int fd;
+		snprintf(mark,MAX_PATH,"%s/%s",cjit->tmpdir,ASSETS_MARK);
+		fd = open(mark,O_WRONLY|O_CREAT|O_CLOEXEC,0644);
+		if(fd<0) {
+			fail(mark);
+			return(false);
+		}
+		close(fd);
+	}
+	close(cjit->assets_fd); // releases the lock
+#endif
+	return(true);
+}
+
 // second argument is optional and if left NULL then default path is
 // used: ${TEMPDIR}/CJIT-vN.N.N
 bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
@@ -75,7 +127,7 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 			// The path exists but is not a directory
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
+		if(!assets_lock(cjit,tempDir)) return(false);
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
@@ -122,7 +174,7 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 			// The path exists but is not a directory
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
+		if(!assets_lock(cjit,tempDir)) return(false);
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
diff --git a/src/cjit.h b/src/cjit.h
index 9533b4f..9403d24 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -40,6 +40,7 @@ struct CJITState {
 	bool quiet; // print less to stderr
 	bool verbose; // print more to stderr
 	bool fresh; // tempdir is freshly created and needs to be populated
+	int assets_fd; // locks tempdir while it is populated
 	int tcc_output; //
 	// #define TCC_OUTPUT_MEMORY   1 /* output will be run in memory */
 	// #define TCC_OUTPUT_EXE      2 /* executable file */
@@ -96,6 +97,7 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 // from embedded.c - generated at build time
 extern bool extract_assets(CJITState *CJIT, const char *optional_path);
 extern bool cjit_mkdtemp(CJITState *cjit, const char *optional_path);
+extern bool cjit_assets_done(CJITState *cjit);
 /////////////
 // from file.c
 extern char* file_load(const char *filename, unsigned int *len);
-- 
2.43.0


From 2eacc828872c0c955031065d32d5f793ced85fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 032/150] fix: stop when the runtime assets cannot be set up

Compilation went on with an unconfigured tinycc state.
---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 0df7704..7002d00 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -37,7 +37,7 @@
 #endif
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
-- 
2.43.0


From f043fcd0505494dd0524ea7c57e54d33ef2b3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 033/150] fix: quoted includes are searched first in the
 directory of the source

Sources were compiled as a string, so the working directory took the
place of the source's own directory and came before -I.
---
 src/cjit.c | 40 +++++-----------------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 7002d00..176397e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -464,39 +464,6 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		_err("Encoding is not yet supported, execution aborted.");
 		return false;
 	}
-	FILE *file = fopen(path, "rb");
-	if (!file) {
-		fail(path);
-		return false;
-	}
-	char *spath = (char*)malloc((strlen(path)+16)*sizeof(char));
-	if (!spath) {
-		fail(path);
-		fclose(file);
-		return false;
-	}
-	sprintf(spath,"#line 1 \"%s\"\n",path);
-	size_t spath_len = strlen(spath);
-	char *contents =
-		(char*)malloc
-		((spath_len + length + 1)
-		 * sizeof(char));
-	if (!contents) {
-		fail(path);
-		free(spath);
-		fclose(file);
-		return false;
-	}
-	strcpy(contents,spath);
-	free(spath);
-	if(length != fread(contents+spath_len, 1, length, file)) {
-		fail(path);
-		free(contents);
-		fclose(file);
-		return false;
-	}
-	contents[length+spath_len] = 0x0;
-	fclose(file);
 	{ // if inside a dir then add dir to includes too
 		size_t dirname;
 		cwk_path_get_dirname(path,&dirname);
@@ -508,8 +475,11 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	res = tcc_compile_string(tcc(cjit),contents);
-	free(contents);
+	// compile by name, so that quoted includes are searched first where
+	// the source is; it is C code whatever the extension
+	tcc_set_options(tcc(cjit),"-xc");
+	res = tcc_add_file(tcc(cjit),path);
+	tcc_set_options(tcc(cjit),"-xnone");
 	debug("+S %s",path);
 	return((res<0)?false:true);
 }
-- 
2.43.0


From ba56fef6b695374ffb47781abaf7fa042704aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 034/150] fix: ar members of odd size are padded to even
 offsets

Archives with such members were corrupt for other tools and those of
other tools could not be read past them.
---
 src/cjit-ar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..3540480 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -153,6 +153,8 @@ no_ar:
 	    fsize = atoi(arhdr.ar_size);
 	    buf = tcc_malloc(fsize + 1);
 	    fread(buf, fsize, 1, fh);
+	    if (fsize & 1) // members are aligned to even offsets
+		fgetc(fh);
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
@@ -294,6 +296,8 @@ finish:
         fwrite(&arhdro, sizeof(arhdro), 1, fo);
         fwrite(buf, fsize, 1, fo);
         tcc_free(buf);
+        if (fsize & 1) // members are aligned to even offsets
+            fputc('\n', fo), fsize++;
         i_obj++;
         fpos += (fsize + sizeof(arhdro));
     }
-- 
2.43.0


From 712ae1d82afbb9aab8a87c626be9b97217b65d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 035/150] fix: an object without symbol table took that of the
 previous ar member

The stale pointers also referred to a freed buffer.
---
 src/cjit-ar.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 3540480..5727c0f 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -230,6 +230,8 @@ finish:
             goto the_end;
         }
 
+        symtab = strtab = NULL;
+        symtabsize = 0;
         shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
         shstr = (char *)(buf + shdr->sh_offset);
         for (i = 0; i < ehdr->e_shnum; i++)
-- 
2.43.0


From 89853ca634ff3aaa818470ce2c59a02a24346559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 036/150] fix: the ar index lists global symbols of any type,
 as thread-local ones

---
 src/cjit-ar.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 5727c0f..37d5562 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -262,12 +262,8 @@ finish:
             {
                 sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
                 if (sym->st_shndx &&
-                    (sym->st_info == 0x10
-                    || sym->st_info == 0x11
-                    || sym->st_info == 0x12
-                    || sym->st_info == 0x20
-                    || sym->st_info == 0x21
-                    || sym->st_info == 0x22
+                    (ELFW(ST_BIND)(sym->st_info) == STB_GLOBAL
+                    || ELFW(ST_BIND)(sym->st_info) == STB_WEAK
                     )) {
                     //printf("symtab: %2Xh %4Xh %2Xh %s\n", sym->st_info, sym->st_size, sym->st_shndx, strtab + sym->st_name);
                     istrlen = strlen(strtab + sym->st_name)+1;
-- 
2.43.0


From 2aa5df82dd6e5146ffd8dd6cc58401c4661870d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 037/150] fix: ar lost all members when none of them defines a
 global symbol

An empty archive was written.
---
 src/cjit-ar.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 37d5562..5f89f75 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -305,21 +305,18 @@ finish:
         hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    // create an empty archive
-    if (!funccnt) {
-        ret = 0;
-        goto the_end;
+    if (funccnt) { // without symbols there is no index
+        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+        memcpy(&arhdr.ar_size, stmp, 10);
+        fwrite(&arhdr, sizeof(arhdr), 1, fh);
+        afpos[0] = le2belong(funccnt);
+        for (i=1; i<=funccnt; i++)
+            afpos[i] = le2belong(afpos[i] + hofs);
+        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+        fwrite(anames, strpos, 1, fh);
+        if (fpos)
+            fwrite("", 1, 1, fh);
     }
-    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-    memcpy(&arhdr.ar_size, stmp, 10);
-    fwrite(&arhdr, sizeof(arhdr), 1, fh);
-    afpos[0] = le2belong(funccnt);
-    for (i=1; i<=funccnt; i++)
-        afpos[i] = le2belong(afpos[i] + hofs);
-    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
-    if (fpos)
-        fwrite("", 1, 1, fh);
     // write objects
     fseek(fo, 0, SEEK_END);
     fsize = ftell(fo);
-- 
2.43.0


From 611a00c0bb637ca65ed8e76777548fc396861047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 038/150] fix: a long archive name overflowed a fixed buffer in
 ar

---
 src/cjit-ar.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 5f89f75..fe8c98c 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -90,7 +90,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     char *anames = NULL;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
-    char tfile[260], stmp[20];
+    char *tfile = NULL, stmp[20];
     char *file, *name;
     int ret = 2;
     const char *ops_conflict = "habdiopN";  // unsupported but destructive if ignored.
@@ -190,6 +190,7 @@ finish:
     }
     created_file = argv[i_lib];
 
+    tfile = tcc_malloc(strlen(argv[i_lib]) + 5);
     sprintf(tfile, "%s.tmp", argv[i_lib]);
     if ((fo = fopen(tfile, "wb+")) == NULL)
     {
@@ -337,6 +338,7 @@ the_end:
         remove(created_file);
     if (fo)
         fclose(fo), remove(tfile);
+    tcc_free(tfile);
     return ret;
 }
 
-- 
2.43.0


From 78211407a5ad3d19e2423612839ceaf97c0f3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 039/150] fix: ar refuses input that is not a well-formed
 object

Its headers were followed without any check, reading out of bounds. The
string table is now the one linked by the symbol table.
---
 src/cjit-ar.c | 75 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index fe8c98c..e7d6949 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -31,6 +31,7 @@
 
 //#define ARMAG  "!<arch>\n"
 #define ARFMAG "`\n"
+#define MAX_MEMBER 0x7ffffff0 // ar stores no more than ten digits
 
 typedef struct {
     char ar_name[16];
@@ -65,6 +66,55 @@ static int ar_usage(int ret) {
     return ret;
 }
 
+/* Returns 1 if buf holds a range of the given offset and size */
+static int in_file(unsigned long long off, unsigned long long size, int fsize) {
+    return off <= (unsigned)fsize && size <= (unsigned)fsize - off;
+}
+
+/* Returns 1 if buf is an object whose symbols can be read safely */
+static int valid_object(const char *buf, int fsize) {
+    const ElfW(Ehdr) *ehdr = (const ElfW(Ehdr) *)buf;
+    const ElfW(Shdr) *shdr;
+    int i;
+
+    if (fsize < (int)sizeof(*ehdr)
+        || memcmp(ehdr->e_ident, ELFMAG, SELFMAG)
+        || ehdr->e_ident[EI_CLASS] != ELFCLASSW)
+        return 0;
+    if (!ehdr->e_shnum)
+        return 1;
+    if (ehdr->e_shentsize != sizeof(*shdr)
+        || ehdr->e_shstrndx >= ehdr->e_shnum
+        || ehdr->e_shoff % sizeof(ElfW(Addr))
+        || !in_file(ehdr->e_shoff, ehdr->e_shnum * sizeof(*shdr), fsize))
+        return 0;
+    shdr = (const ElfW(Shdr) *)(buf + ehdr->e_shoff);
+    for (i = 0; i < ehdr->e_shnum; i++) {
+        const ElfW(Shdr) *s = &shdr[i];
+        if (s->sh_type == SHT_STRTAB || s->sh_type == SHT_SYMTAB) {
+            if (!in_file(s->sh_offset, s->sh_size, fsize))
+                return 0;
+            if (s->sh_type == SHT_STRTAB
+                && (!s->sh_size || buf[s->sh_offset + s->sh_size - 1]))
+                return 0;
+        }
+        if (s->sh_name >= shdr[ehdr->e_shstrndx].sh_size)
+            return 0;
+        if (s->sh_type == SHT_SYMTAB) {
+            const ElfW(Sym) *sym = (const ElfW(Sym) *)(buf + s->sh_offset);
+            int j, n = s->sh_size / sizeof(*sym);
+            if (s->sh_offset % sizeof(ElfW(Addr))
+                || s->sh_link >= ehdr->e_shnum
+                || shdr[s->sh_link].sh_type != SHT_STRTAB)
+                return 0;
+            for (j = 0; j < n; j++)
+                if (sym[j].st_name >= shdr[s->sh_link].sh_size)
+                    return 0;
+        }
+    }
+    return shdr[ehdr->e_shstrndx].sh_type == SHT_STRTAB;
+}
+
 int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     static const ArHdr arhdr_init = {
         "/               ",
@@ -85,7 +135,8 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     ElfW(Shdr) *shdr;
     ElfW(Sym) *sym;
     int i, fsize, i_lib, i_obj;
-    char *buf, *shstr, *symtab = NULL, *strtab = NULL;
+    long fpos_end;
+    char *buf, *symtab = NULL, *strtab = NULL;
     int symtabsize = 0;//, strtabsize = 0;
     char *anames = NULL;
     int *afpos = NULL;
@@ -217,24 +268,25 @@ finish:
             printf("a - %s\n", argv[i_obj]);
 
         fseek(fi, 0, SEEK_END);
-        fsize = ftell(fi);
+        fpos_end = ftell(fi);
+        fsize = fpos_end < 0 || fpos_end > MAX_MEMBER ? 0 : fpos_end;
         fseek(fi, 0, SEEK_SET);
         buf = tcc_malloc(fsize + 1);
-        fread(buf, fsize, 1, fi);
+        if (fread(buf, 1, fsize, fi) != fsize)
+            fsize = 0;
         fclose(fi);
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-        if (ehdr->e_ident[4] != ELFCLASSW)
+        if (!valid_object(buf, fsize))
         {
-            fprintf(stderr, "cjit-ar: Unsupported Elf Class: %s\n", argv[i_obj]);
+            fprintf(stderr, "cjit-ar: Unsupported object file: %s\n", argv[i_obj]);
+            tcc_free(buf);
             goto the_end;
         }
 
         symtab = strtab = NULL;
         symtabsize = 0;
-        shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
-        shstr = (char *)(buf + shdr->sh_offset);
         for (i = 0; i < ehdr->e_shnum; i++)
         {
             shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + i * ehdr->e_shentsize);
@@ -244,14 +296,7 @@ finish:
             {
                 symtab = (char *)(buf + shdr->sh_offset);
                 symtabsize = shdr->sh_size;
-            }
-            if (shdr->sh_type == SHT_STRTAB)
-            {
-                if (!strcmp(shstr + shdr->sh_name, ".strtab"))
-                {
-                    strtab = (char *)(buf + shdr->sh_offset);
-                    //strtabsize = shdr->sh_size;
-                }
+                strtab = (char *)(buf + ((ElfW(Shdr) *)(buf + ehdr->e_shoff))[shdr->sh_link].sh_offset);
             }
         }
 
-- 
2.43.0


From 082121992c581304feaed611cb9641770025f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 040/150] fix: a truncated or corrupt archive is refused by ar

Sizes were used unchecked and short reads ignored.
---
 src/cjit-ar.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index e7d6949..64167fb 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -184,26 +184,38 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
             fprintf(stderr, "cjit-ar: can't open file %s\n", argv[i_lib]);
             goto finish;
         }
-        fread(stmp, 1, 8, fh);
-	if (memcmp(stmp,ARMAG,8))
+	if (fread(stmp, 1, 8, fh) != 8 || memcmp(stmp,ARMAG,8))
 	{
 no_ar:
             fprintf(stderr, "cjit-ar: not an ar archive %s\n", argv[i_lib]);
             goto finish;
 	}
-	while (fread(&arhdr, 1, sizeof(arhdr), fh) == sizeof(arhdr)) {
+	while ((i = fread(&arhdr, 1, sizeof(arhdr), fh)) > 0) {
 	    char *p, *e;
 
-	    if (memcmp(arhdr.ar_fmag, ARFMAG, 2))
+	    if (i != sizeof(arhdr) || memcmp(arhdr.ar_fmag, ARFMAG, 2))
 		goto no_ar;
+	    memcpy(stmp, arhdr.ar_size, sizeof arhdr.ar_size);
+	    stmp[sizeof arhdr.ar_size] = 0;
+	    fpos_end = strtol(stmp, NULL, 10);
+	    if (fpos_end < 0 || fpos_end > MAX_MEMBER)
+		goto no_ar;
+	    fsize = fpos_end;
 	    p = arhdr.ar_name;
 	    for (e = p + sizeof arhdr.ar_name; e > p && e[-1] == ' ';)
 		e--;
-	    *e = '\0';
-	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
-	    fsize = atoi(arhdr.ar_size);
+	    if (e < p + sizeof arhdr.ar_name)
+		*e = '\0';
+	    fpos_end = ftell(fh); // must lie inside the archive
+	    fseek(fh, 0, SEEK_END);
+	    if (fsize > ftell(fh) - fpos_end)
+		goto no_ar;
+	    fseek(fh, fpos_end, SEEK_SET);
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
+	    if (fread(buf, 1, fsize, fh) != fsize) {
+		tcc_free(buf);
+		goto no_ar;
+	    }
 	    if (fsize & 1) // members are aligned to even offsets
 		fgetc(fh);
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
-- 
2.43.0


From e426dbee1204e5391fe48f02b5327b252d4d5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 041/150] fix: ar lists and extracts members with names longer
 than 15

The table of long names written by the system ar was taken as a member
and its references as file names from the root directory. Names are
also extracted only in the current directory.
---
 src/cjit-ar.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 64167fb..bafca38 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -135,7 +135,8 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     ElfW(Shdr) *shdr;
     ElfW(Sym) *sym;
     int i, fsize, i_lib, i_obj;
-    long fpos_end;
+    long fpos_end, lsize = 0;
+    char mname[sizeof(arhdr.ar_name) + 1], *lnames = NULL;
     char *buf, *symtab = NULL, *strtab = NULL;
     int symtabsize = 0;//, strtabsize = 0;
     char *anames = NULL;
@@ -201,11 +202,11 @@ no_ar:
 	    if (fpos_end < 0 || fpos_end > MAX_MEMBER)
 		goto no_ar;
 	    fsize = fpos_end;
-	    p = arhdr.ar_name;
+	    p = mname;
+	    memcpy(mname, arhdr.ar_name, sizeof arhdr.ar_name);
 	    for (e = p + sizeof arhdr.ar_name; e > p && e[-1] == ' ';)
 		e--;
-	    if (e < p + sizeof arhdr.ar_name)
-		*e = '\0';
+	    *e = '\0';
 	    fpos_end = ftell(fh); // must lie inside the archive
 	    fseek(fh, 0, SEEK_END);
 	    if (fsize > ftell(fh) - fpos_end)
@@ -218,17 +219,36 @@ no_ar:
 	    }
 	    if (fsize & 1) // members are aligned to even offsets
 		fgetc(fh);
-	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
+	    if (!strcmp(p,"//")) { // table of the names longer than 15
+		tcc_free(lnames);
+		lnames = buf;
+		lnames[fsize] = '\0';
+		lsize = fsize;
+		continue;
+	    }
+	    if (strcmp(p,"/") && strcmp(p,"/SYM64/")) {
+		if (p[0] == '/' && p[1] >= '0' && p[1] <= '9') {
+		    long pos = strtol(p + 1, NULL, 10);
+		    if (pos >= lsize) {
+			tcc_free(buf);
+			goto no_ar;
+		    }
+		    p = lnames + pos;
+		    e = p + strcspn(p, "\n");
+		    if (*e)
+			*e = '\0';
+		}
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
+		for (e = strchr(p, 0); e > p && e[-1] != '/'; --e);
+		p = e; // extract in the current directory only
 		/* tv not implemented */
 	        if (table || verbose)
-		    printf("%s%s\n", extract ? "x - " : "", arhdr.ar_name);
+		    printf("%s%s\n", extract ? "x - " : "", p);
 		if (extract) {
-		    if ((fo = fopen(arhdr.ar_name, "wb")) == NULL)
+		    if ((fo = fopen(p, "wb")) == NULL)
 		    {
-			fprintf(stderr, "cjit-ar: can't create file %s\n",
-				arhdr.ar_name);
+			fprintf(stderr, "cjit-ar: can't create file %s\n", p);
 		        tcc_free(buf);
 			goto finish;
 		    }
@@ -243,6 +263,7 @@ no_ar:
 finish:
 	if (fh)
 		fclose(fh);
+	tcc_free(lnames);
 	return ret;
     }
 
-- 
2.43.0


From 04682960fc15a6a754d1544aec1a2d9ddf116f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 042/150] fix: ar reports failed writes instead of leaving a
 partial file

---
 src/cjit-ar.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bafca38..81f7126 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -252,8 +252,12 @@ no_ar:
 		        tcc_free(buf);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
+		    i = fwrite(buf, 1, fsize, fo);
+		    if (fclose(fo) || i != fsize) {
+			fprintf(stderr, "cjit-ar: can't write file %s\n", p);
+			tcc_free(buf);
+			goto finish;
+		    }
 		    /* ignore date/uid/gid/mode */
 		}
 	    }
@@ -378,6 +382,7 @@ finish:
         i_obj++;
         fpos += (fsize + sizeof(arhdro));
     }
+    fpos_end = fpos;
     hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
     fpos = 0;
     if ((hofs & 1)) // align
@@ -401,10 +406,13 @@ finish:
     fsize = ftell(fo);
     fseek(fo, 0, SEEK_SET);
     buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
-    fwrite(buf, fsize, 1, fh);
+    if (fsize == fpos_end && fread(buf, 1, fsize, fo) == fsize
+        && fwrite(buf, 1, fsize, fh) == fsize
+        && !ferror(fh) && !ferror(fo) && !fflush(fh))
+        ret = 0;
+    else
+        fprintf(stderr, "cjit-ar: can't write file %s\n", argv[i_lib]);
     tcc_free(buf);
-    ret = 0;
 the_end:
     if (anames)
         tcc_free(anames);
-- 
2.43.0


From 5dd7fff3133eb6023a41ffff4b52160d3bbee4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 043/150] fix: attributes work after including glibc headers

glibc defines __attribute__ away for compilers it does not know, which
silently changed the layout of packed and aligned types (also of its
own, as struct epoll_event) and dropped constructors.
---
 lib/tinycc/include/sys/cdefs.h | 11 +++++++++++
 1 file changed, 11 insertions(+)
 create mode 100644 lib/tinycc/include/sys/cdefs.h

diff --git a/lib/tinycc/include/sys/cdefs.h b/lib/tinycc/include/sys/cdefs.h
new file mode 100644
index 0000000..fe3037d
--- /dev/null
+++ b/lib/tinycc/include/sys/cdefs.h
@@ -0,0 +1,11 @@
+/* glibc hides attributes from compilers it does not know:
+
+     #if !(defined __GNUC__ || defined __clang__)
+     # define __attribute__(xyz)
+     #endif
+
+   which silently changed the layout of every packed or aligned type, and
+   dropped constructors, after including any of its headers. */
+
+#include_next <sys/cdefs.h>
+#undef __attribute__
-- 
2.43.0


From a0143dc1f72fd5c4e357488c366d4834abd6064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 044/150] fix: programs run in memory get their constructors,
 destructors and environment

They differed from the same program built as an executable.
---
 src/cjit.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 176397e..26f0230 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -576,6 +576,17 @@ int cjit_link(CJITState *cjit) {
 	return( tcc_output_file(tcc(cjit),cjit->output_filename));
 }
 
+#if !defined(WINDOWS)
+extern char **environ;
+typedef void (*cjit_initfunc)(int, char**, char**);
+typedef void (*cjit_finifunc)(void);
+// destructors of the program running in the forked process
+static cjit_finifunc *fini_start, *fini_end;
+static void run_fini_array(void) {
+	while(fini_end != fini_start) (*--fini_end)();
+}
+#endif
+
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if(!cjit->done_setup) {
 		_err("%s: no source code found",__func__);
@@ -596,7 +607,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		}
 	}
 	int res = 1;
-	int (*_ep)(int, char**);
+	int (*_ep)(int, char**, char**);
 	// relocate the code (link symbols)
 #if defined(SHAREDTCC)
 	if (tcc_relocate(tcc(cjit), TCC_RELOCATE_AUTO) < 0) {
@@ -625,14 +636,22 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		fclose(fd);
 	}
 	cjit->done_exec = true;
-	res = _ep(argc, argv);
+	res = _ep(argc, argv, NULL);
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
 	cjit->done_exec = true;
 	pid = fork();
 	if (pid == 0) {
-		res = _ep(argc, argv);
+		// constructors and destructors, as the system loader does
+		cjit_initfunc *ini, *ini_end;
+		ini = tcc_get_symbol(tcc(cjit), "__init_array_start");
+		ini_end = tcc_get_symbol(tcc(cjit), "__init_array_end");
+		fini_start = tcc_get_symbol(tcc(cjit), "__fini_array_start");
+		fini_end = tcc_get_symbol(tcc(cjit), "__fini_array_end");
+		atexit(run_fini_array);
+		while(ini != ini_end) (*ini++)(argc, argv, environ);
+		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
 		if(cjit->write_pid) {
-- 
2.43.0


From 09db2d1cf159801701669386762cd87b57606fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 045/150] verif hook: CJIT_VERIF turns off the tiny allocator
 of the preprocessor

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..4f68e99 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -115,7 +115,9 @@ ST_FUNC void expect(const char *msg)
 /* ------------------------------------------------------------------------- */
 /* Custom allocator for tiny objects */
 
+#ifndef CJIT_VERIF /* verification builds: every allocation has red zones */
 #define USE_TAL
+#endif
 
 #ifndef USE_TAL
 #define tal_free(al, p) tcc_free(p)
-- 
2.43.0


From a6caf3b19f32e212d30806f8049595e2a86e6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 046/150] fix: #include_next does not find the same file again
 in a repeated directory

---
 lib/tinycc/tccpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 4f68e99..83f9d8c 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1414,6 +1414,9 @@ static int parse_include(TCCState *s1, int do_next, int test)
             pstrcat(buf, sizeof buf, "/");
         }
         pstrcat(buf, sizeof buf, name);
+        /* a directory listed twice does not make a file its own next one */
+        if (do_next && 0 == PATHCMP(buf, file->true_filename))
+            continue;
         e = search_cached_include(s1, buf, 0);
         if (e && (define_find(e->ifndef_macro) || e->once)) {
             /* no need to parse the include because the 'ifndef macro'
-- 
2.43.0


From 3264aeda082b81812b27d8ee697c895fffbfe138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 047/150] fix: normalising a path in place looked at text it
 had overwritten

---
 src/cwalk.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/cwalk.c b/src/cwalk.c
index e4c9a49..191e1ab 100755
--- a/src/cwalk.c
+++ b/src/cwalk.c
@@ -605,9 +605,9 @@ static void cwk_path_fix_root(char *buffer, size_t buffer_size, size_t length)
 static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   char *buffer, size_t buffer_size)
 {
-  size_t pos;
+  size_t pos, depth;
   bool absolute, has_segment_output;
-  struct cwk_segment_joined sj;
+  struct cwk_segment_joined sj, sjc;
 
   // We initialize the position after the root, which should get us started.
   cwk_path_get_root(paths[0], &pos);
@@ -631,11 +631,32 @@ static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   // this flag once there is some output.
   has_segment_output = false;
 
+  // The amount of directories which are entered so far and can be left again.
+  // The segments before the current one are not inspected for this, since the
+  // output has replaced them already if the path is also the buffer.
+  depth = 0;
+
   do {
     // Check whether we have to drop this segment because of resolving a
     // relative path or because it is a CWK_CURRENT segment.
-    if (cwk_path_segment_will_be_removed(&sj, absolute)) {
+    switch (cwk_path_get_segment_type(&sj.segment)) {
+    case CWK_CURRENT:
       continue;
+    case CWK_BACK:
+      if (depth > 0) {
+        --depth;
+        continue;
+      } else if (absolute) {
+        continue;
+      }
+      break;
+    default:
+      ++depth;
+      sjc = sj;
+      if (cwk_path_segment_normal_will_be_removed(&sjc)) {
+        continue;
+      }
+      break;
     }
 
     // We add a separator if we previously wrote a segment. The last segment
-- 
2.43.0


From 2c6d05de308080fb4cb36c468ce27043f5d61283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 048/150] fix: gunzip refuses garbage between the compressed
 data and the trailer

---
 src/tinflate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinflate.c b/src/tinflate.c
index 9816862..b9c3c2d 100644
--- a/src/tinflate.c
+++ b/src/tinflate.c
@@ -622,6 +622,11 @@ int tinf_uncompress(void *dest, unsigned int *destLen,
 		return TINF_DATA_ERROR;
 	}
 
+	/* Check all input belongs to the stream */
+	if (d.source != d.source_end) {
+		return TINF_DATA_ERROR;
+	}
+
 	*destLen = d.dest - d.dest_start;
 
 	return TINF_OK;
-- 
2.43.0


From 1c68d8ed07432dc4d0f702eeadf1530331af2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 049/150] fix: a bit-field as first operand of ?: without a
 second one lost its signed type

---
 lib/tinycc/tccgen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..dfc5b4e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6432,6 +6432,12 @@ static void expr_cond(void)
             /* needed to avoid having different registers saved in
                each branch */
             save_regs(1);
+            if (vtop->type.t & VT_BITFIELD) {
+                /* promote as the value is about to lose its width */
+                type.t = (vtop->type.t & VT_BTYPE) == VT_LLONG ? VT_LLONG : VT_INT;
+                type.ref = NULL;
+                gen_cast(&type);
+            }
             gv_dup();
             tt = gvtst(0, 0);
         }
-- 
2.43.0


From 18b4eea06586ae01cd48521d0890061627d22bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 050/150] fix: the size of a variable-length array type behind
 a pointer parameter was never computed

---
 lib/tinycc/tcc.h    |  1 +
 lib/tinycc/tccgen.c | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..5b9b0ca 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -652,6 +652,7 @@ typedef struct DLLReference {
 #define TYPE_DIRECT    2 /* type with variable */
 #define TYPE_PARAM     4 /* type declares function parameter */
 #define TYPE_NEST      8 /* nested call to post_type */
+#define TYPE_POINTED  16 /* declarator nested in parentheses: pointed-to type */
 
 #define IO_BUF_SIZE 8192
 
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index dfc5b4e..ca82603 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5047,7 +5047,7 @@ check:
         }
         skip(']');
         /* parse next post type */
-        post_type(type, ad, storage, (td & ~(TYPE_DIRECT|TYPE_ABSTRACT)) | TYPE_NEST);
+        post_type(type, ad, storage, (td & ~(TYPE_DIRECT|TYPE_ABSTRACT|TYPE_POINTED)) | TYPE_NEST);
 
         if ((type->t & VT_BTYPE) == VT_FUNC)
             tcc_error("declaration of an array of functions");
@@ -5086,7 +5086,7 @@ check:
 
         if (vla_array_str) {
             /* for function args, the top dimension is converted to pointer */
-	    if ((t1 & VT_VLA) && (td & TYPE_NEST))
+	    if ((t1 & VT_VLA) && (td & (TYPE_NEST | TYPE_POINTED)))
 	        s->vla_array_str = vla_array_str;
 	    else
 	        tok_str_free_str(vla_array_str);
@@ -5171,7 +5171,8 @@ static CType *type_decl(CType *type, AttributeDef *ad, int *v, int td)
 	*v = 0;
     }
     post_type(post, ad, post != ret ? 0 : storage,
-              td & ~(TYPE_DIRECT|TYPE_ABSTRACT));
+              (td & ~(TYPE_DIRECT|TYPE_ABSTRACT|TYPE_POINTED))
+              | (post != type ? TYPE_POINTED : 0));
     parse_attribute(ad);
     type->t |= storage;
     return ret;
@@ -8294,11 +8295,14 @@ static void func_vla_arg_code(Sym *arg)
 
 static void func_vla_arg(Sym *sym)
 {
-    Sym *arg;
+    Sym *arg, *s;
 
     for (arg = sym->type.ref->next; arg; arg = arg->next)
-        if ((arg->type.t & VT_BTYPE) == VT_PTR && (arg->type.ref->type.t & VT_VLA))
-            func_vla_arg_code(arg->type.ref);
+        for (s = arg; (s->type.t & VT_BTYPE) == VT_PTR; s = s->type.ref)
+            if (s->type.ref->type.t & VT_VLA) {
+                func_vla_arg_code(s->type.ref);
+                break;
+            }
 }
 
 /* parse a function defined by symbol 'sym' and generate its code in
-- 
2.43.0


From 32a3e802675263919da578a88211d873ce0764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 051/150] fix: initialisation went on at the wrong place after
 a nested designator

---
 lib/tinycc/tccgen.c | 74 +++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index ca82603..d32c241 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7419,6 +7419,7 @@ static void init_putz(init_params *p, unsigned long c, int size)
 #define DIF_SIZE_ONLY 2
 #define DIF_HAVE_ELEM 4
 #define DIF_CLEAR     8
+#define DIF_DESIG     16 /* the list continues a designator, without '{' */
 
 /* delete relocations for specified range c ... c + size. Unfortunatly
    in very special cases, relocations may occur unordered */
@@ -7450,6 +7451,20 @@ static void decl_design_flex(init_params *p, Sym *ref, int index)
         tcc_error("flexible array has zero size in this context");
 }
 
+/* whether a designator starts here */
+static int is_designator(void)
+{
+    int l = tok, t;
+    if (l == '[' || l == '.')
+        return 1;
+    if (!gnu_ext || l < TOK_UIDENT)
+        return 0;
+    next();
+    t = tok;
+    unget_tok(l);
+    return t == ':';
+}
+
 /* t is the array or struct type. c is the array or struct
    address. cur_field is the pointer to the current
    field, for arrays the 'c' member contains the current start
@@ -7476,8 +7491,10 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
         unget_tok(l);
     }
 
-    /* NOTE: we only support ranges for last designator */
-    while (nb_elems == 1 && (tok == '[' || tok == '.')) {
+    /* One step of the designator: the list for the designated subobject
+       parses the remaining steps, and then goes on there with what follows.
+       NOTE: we only support ranges for last designator */
+    if (tok == '[' || tok == '.') {
         if (tok == '[') {
             if (!(type->t & VT_ARRAY))
                 expect("array type");
@@ -7492,8 +7509,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             decl_design_flex(p, s, index_last);
             if (index < 0 || index_last >= s->c || index_last < index)
 	        tcc_error("index exceeds array bounds or range is empty");
-            if (cur_field)
-		(*cur_field)->c = index_last;
+            (*cur_field)->c = index_last;
             type = pointed_type(type);
             elem_size = type_size(type, &align);
             c += index * elem_size;
@@ -7504,16 +7520,24 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             l = tok;
         struct_field:
             next();
-	    f = find_field(type, l, &cumofs);
-            if (cur_field)
-                *cur_field = f;
+	    s = find_field(type, l, &cumofs);
+            f = type->ref->next;
+            while (f != s && ((f->type.t & VT_BTYPE) != VT_STRUCT
+                              || f->v < (SYM_FIRST_ANOM | SYM_FIELD)
+                              || !find_field(&f->type, l | SYM_FIELD, &cumofs)))
+                f = f->next;
+            if (f != s) {
+                /* designate within the anonymous struct/union member */
+                unget_tok(l);
+                unget_tok('.');
+            }
+            *cur_field = f;
 	    type = &f->type;
-            c += cumofs;
+            c += f->c;
         }
-        cur_field = NULL;
-    }
-    if (!cur_field) {
-        if (tok == '=') {
+        if (nb_elems == 1 && (tok == '[' || tok == '.')) {
+            flags |= DIF_DESIG;
+        } else if (tok == '=') {
             next();
         } else if (!gnu_ext) {
 	    expect("=");
@@ -7549,7 +7573,8 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
        than once.  In that case we need to delete possibly already
        existing relocations. */
     if (!(flags & DIF_SIZE_ONLY) && c - corig < al) {
-        decl_design_delrels(p->sec, c, elem_size * nb_elems);
+        if (!(flags & DIF_DESIG))
+            decl_design_delrels(p->sec, c, elem_size * nb_elems);
         flags &= ~DIF_CLEAR; /* mark stack dirty too */
     }
 
@@ -7787,7 +7812,7 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
     if (debug_modes && !(flags & DIF_SIZE_ONLY) && !p->sec)
         tcc_debug_line(tcc_state), tcc_tcov_check_line (tcc_state, 1);
 
-    if (!(flags & DIF_HAVE_ELEM) && tok != '{' &&
+    if (!(flags & (DIF_HAVE_ELEM | DIF_DESIG)) && tok != '{' &&
 	/* In case of strings we have special handling for arrays, so
 	   don't consume them as initializer value (which would commit them
 	   to some anonymous symbol).  */
@@ -7896,25 +7921,28 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 
           do_init_list:
             /* zero memory once in advance */
-            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY))) {
+            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY)) && !no_oblock) {
                 init_putz(p, c, n*size1);
                 flags |= DIF_CLEAR;
             }
 
 	    len = 0;
+            flags &= ~DIF_DESIG;
             /* GNU extension: if the initializer is empty for a flex array,
                it's size is zero.  We won't enter the loop, so set the size
                now.  */
             decl_design_flex(p, s, len);
+            /* without '{' and not clear: designators were there before,
+               and what they did stays */
+            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY)))
+                len = n * size1;
 	    while (tok != '}' || (flags & DIF_HAVE_ELEM)) {
 		len = decl_designator(p, type, c, &f, flags, len);
 		flags &= ~DIF_HAVE_ELEM;
 		if (type->t & VT_ARRAY) {
 		    ++indexsym.c;
-		    /* special test for multi dimensional arrays (may not
-		       be strictly correct if designators are used at the
-		       same time) */
-		    if (no_oblock && len >= n*size1)
+		    /* special test for multi dimensional arrays */
+		    if (no_oblock && indexsym.c >= n)
 		        break;
 		} else {
 		    if (s->type.t == VT_UNION)
@@ -7928,6 +7956,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		if (tok == '}')
 		    break;
 		skip(',');
+		/* a designator is relative to the enclosing '{' */
+		if (no_oblock && is_designator()) {
+		    unget_tok(',');
+		    break;
+		}
 	    }
         }
         if (!no_oblock)
@@ -7952,6 +7985,9 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
         size1 = 1;
 	goto do_init_list;
 
+    } else if (flags & DIF_DESIG) {
+        expect(tok == '[' ? "array type" : "struct or union");
+
     } else if (tok == '{') {
         if (flags & DIF_HAVE_ELEM)
           skip(';');
-- 
2.43.0


From b213e138c7e11747ad15616c955520375a60bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 052/150] fix: an array of unknown size with an empty
 initialiser got one element

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index d32c241..015dc41 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7931,7 +7931,7 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             /* GNU extension: if the initializer is empty for a flex array,
                it's size is zero.  We won't enter the loop, so set the size
                now.  */
-            decl_design_flex(p, s, len);
+            decl_design_flex(p, s, -1);
             /* without '{' and not clear: designators were there before,
                and what they did stays */
             if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY)))
-- 
2.43.0


From a0c175009e5821fec8eef0522be1822afc07480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 053/150] fix: a struct ending in an unnamed bit-field
 swallowed the initialiser that follows

---
 lib/tinycc/tccgen.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 015dc41..3d8dcd4 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7451,6 +7451,15 @@ static void decl_design_flex(init_params *p, Sym *ref, int index)
         tcc_error("flexible array has zero size in this context");
 }
 
+/* Skip bitfield padding. Also with size 32 and 64. */
+static Sym *skip_padding(Sym *f)
+{
+    while (f && (f->v & SYM_FIRST_ANOM) &&
+           is_integer_btype(f->type.t & VT_BTYPE))
+        f = f->next;
+    return f;
+}
+
 /* whether a designator starts here */
 static int is_designator(void)
 {
@@ -7554,11 +7563,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             elem_size = type_size(type, &align);
             c += index * elem_size;
         } else {
-            f = *cur_field;
-	    /* Skip bitfield padding. Also with size 32 and 64. */
-	    while (f && (f->v & SYM_FIRST_ANOM) &&
-		   is_integer_btype(f->type.t & VT_BTYPE))
-	        *cur_field = f = f->next;
+            *cur_field = f = skip_padding(*cur_field);
             if (!f)
                 tcc_error("too many initializers");
 	    type = &f->type;
@@ -7948,7 +7953,7 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		    if (s->type.t == VT_UNION)
 		        f = NULL;
 		    else
-		        f = f->next;
+		        f = skip_padding(f->next);
 		    if (no_oblock && f == NULL)
 		        break;
 		}
-- 
2.43.0


From 2dc4043e6eaf830f8d9397268ae01bcd834543bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 054/150] fix: an initialiser that overrides an earlier one
 left parts of it behind

---
 lib/tinycc/tccgen.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 3d8dcd4..b291b84 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7402,7 +7402,10 @@ static void init_putz(init_params *p, unsigned long c, int size)
 {
     init_assert(p, c + size);
     if (p->sec) {
-        /* nothing to do because globals are already set to zero */
+        /* globals are already set to zero, unless there were designators
+           for this place before */
+        if (size > 0 && p->sec->sh_type != SHT_NOBITS && !NODATA_WANTED)
+            memset(p->sec->data + c, 0, size);
     } else {
         vpush_helper_func(TOK_memset);
         vseti(VT_LOCAL, c);
@@ -7572,13 +7575,17 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
     }
 
     if (!elem_size) /* for structs */
-        elem_size = type_size(type, &align);
+        elem_size = type->t & VT_BITFIELD
+            ? (BIT_POS(type->t) + BIT_SIZE(type->t) + 7) / 8
+            : type_size(type, &align);
 
     /* Using designators the same element can be initialized more
        than once.  In that case we need to delete possibly already
        existing relocations. */
     if (!(flags & DIF_SIZE_ONLY) && c - corig < al) {
-        if (!(flags & DIF_DESIG))
+        /* without '{', only what gets overwritten */
+        if (tok == '{' || !((type->t & VT_ARRAY)
+                            || (type->t & VT_BTYPE) == VT_STRUCT))
             decl_design_delrels(p->sec, c, elem_size * nb_elems);
         flags &= ~DIF_CLEAR; /* mark stack dirty too */
     }
@@ -7767,10 +7774,11 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
             /* intptr_t may need a reloc too, see tcctest.c:relocation_test() */
 	    case VT_LLONG:
 	    case VT_PTR:
-	        if (vtop->r & VT_SYM)
+	        if (vtop->r & VT_SYM) {
 	          greloca(sec, vtop->sym, c, R_DATA_PTR, val);
-	        else
-	          write64le(ptr, val);
+	          val = 0; /* the relocation adds to what is there */
+	        }
+	        write64le(ptr, val);
 	        break;
             case VT_INT:
                 write32le(ptr, val);
@@ -7895,8 +7903,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                    specifically */
                 if (p->sec && size1 == 1) {
                     init_assert(p, c + nb);
-                    if (!NODATA_WANTED)
+                    if (!NODATA_WANTED) {
                       memcpy(p->sec->data + c, initstr.data, nb);
+                      if (n > nb && p->sec->sh_type != SHT_NOBITS)
+                        memset(p->sec->data + c + nb, 0, n - nb);
+                    }
                 } else {
                     for(i=0;i<n;i++) {
                         if (i >= nb) {
-- 
2.43.0


From f482c0b5e3e7ca81ef3416579ea9977ff35acbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 055/150] fix: unnamed bit-fields as wide as their type, or in
 unions, raised the alignment

---
 lib/tinycc/tccgen.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index b291b84..6fc71e9 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4189,11 +4189,6 @@ static void struct_layout(CType *type, AttributeDef *ad)
 		/* In PCC layout named bit-fields influence the alignment
 		   of the containing struct using the base types alignment,
 		   except for packed fields (which here have correct align).  */
-		if (f->v & SYM_FIRST_ANOM
-                    // && bit_size // ??? gcc on ARM/rpi does that
-                    )
-		    align = 1;
-
 	    } else {
 		bt = f->type.t & VT_BTYPE;
 		if ((bit_pos + bit_size > size * 8)
@@ -4223,6 +4218,11 @@ static void struct_layout(CType *type, AttributeDef *ad)
 		        | (bit_pos << VT_STRUCT_SHIFT);
 	    bit_pos += bit_size;
 	}
+        /* unnamed bit-fields do not influence the alignment, also those in
+           a union or as wide as their type (not marked as bit-field) */
+        if (pcc && (f->v & SYM_FIRST_ANOM)
+            && is_integer_btype(f->type.t & VT_BTYPE))
+            align = 1;
 	if (align > maxalign)
 	    maxalign = align;
 
-- 
2.43.0


From fa807ec9940d55fb1ec0d35670552b67aa24e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 056/150] fix: an unsigned 32 bits wide bit-field was promoted
 to signed int

---
 lib/tinycc/tccgen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 6fc71e9..b7e808d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2840,6 +2840,13 @@ static int compare_types(CType *type1, CType *type2, int unqualified)
 #define CMP_OP 'C'
 #define SHIFT_OP 'S'
 
+/* unsigned int, also as bit-field of all its 32 bits */
+static int is_full_uint(int t)
+{
+    return (t & (VT_BTYPE | VT_UNSIGNED)) == (VT_INT | VT_UNSIGNED)
+        && (!(t & VT_BITFIELD) || BIT_SIZE(t) == 32);
+}
+
 /* Check if OP1 and OP2 can be "combined" with operation OP, the combined
    type is stored in DEST if non-null (except for pointer plus/minus) . */
 static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
@@ -2960,8 +2967,7 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
         /* integer operations */
         type.t = VT_INT | (VT_LONG & (t1 | t2));
         /* convert to unsigned if it does not fit in an integer */
-        if ((t1 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED) ||
-            (t2 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED))
+        if (is_full_uint(t1) || is_full_uint(t2))
           type.t |= VT_UNSIGNED;
     }
     if (dest)
-- 
2.43.0


From b234604e47ead7d93cc0128b57cbcf3c2d1b6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 057/150] fix: a packed bit-field as wide as its type was moved
 to a byte boundary, or refused

---
 lib/tinycc/tccgen.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index b7e808d..4698e7f 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4098,7 +4098,7 @@ static void check_fields (CType *type, int check)
 static void struct_layout(CType *type, AttributeDef *ad)
 {
     int size, align, maxalign, offset, c, bit_pos, bit_size;
-    int packed, a, bt, prevbt, prev_bit_size;
+    int packed, full64, a, bt, prevbt, prev_bit_size;
     int pcc = !tcc_state->ms_bitfields;
     int pragma_pack = *tcc_state->pack_stack_ptr;
     Sym *f;
@@ -4119,6 +4119,20 @@ static void struct_layout(CType *type, AttributeDef *ad)
             bit_size = -1;
         size = type_size(&f->type, &align);
         a = f->a.aligned ? 1 << (f->a.aligned - 1) : 0;
+
+        full64 = 0;
+        if (bit_size == 0 && !(f->v & SYM_FIRST_ANOM))
+            bit_size = size * 8;
+        packed = f->a.packed || ad->a.packed || (pcc && pragma_pack);
+        if (bit_size == size * 8 && (!packed || bit_size == 64)) {
+            /* no need for bit fields, except that packed ones can start
+               at any bit */
+            full64 = packed;
+            if (full64 && (bit_pos & 7))
+                tcc_error("field width 64 not implemented");
+            f->type.t &= ~VT_STRUCT_MASK;
+            bit_size = -1;
+        }
         packed = 0;
 
         if (pcc && bit_size == 0) {
@@ -4153,7 +4167,8 @@ static void struct_layout(CType *type, AttributeDef *ad)
 	} else if (bit_size < 0) {
             if (pcc)
                 c += (bit_pos + 7) >> 3;
-	    c = (c + align - 1) & -align;
+	    if (!full64 || a)
+	        c = (c + align - 1) & -align;
 	    offset = c;
 	    if (size > 0)
 	        c += size;
@@ -4522,13 +4537,12 @@ do_decl:
                         if (bit_size > bsize) {
                             tcc_error("width of '%s' exceeds its type",
                                   get_tok_str(v, NULL));
-                        } else if (bit_size == bsize
-                                    && !ad.a.packed && !ad1.a.packed) {
+                        } else if (bit_size == 64 && v == 0) {
                             /* no need for bit fields */
                             ;
-                        } else if (bit_size == 64) {
-                            tcc_error("field width 64 not implemented");
                         } else {
+                            /* NOTE: a named field with size 0 is one with
+                               64 bits.  See struct_layout. */
                             type1.t = (type1.t & ~VT_STRUCT_MASK)
                                 | VT_BITFIELD
                                 | (bit_size << (VT_STRUCT_SHIFT + 6));
-- 
2.43.0


From 81ef3df9908ad65af2540450b756f914042fcf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 058/150] fix: hexadecimal floating constants and folded double
 operations round once

---
 lib/tinycc/tccgen.c | 11 +++++++----
 lib/tinycc/tccpp.c  | 28 ++++++++++++++++------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4698e7f..76f1b0d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2516,10 +2516,12 @@ static void gen_opif(int op)
            NaN or infinity) (ANSI spec) */
         if (!(ieee_finite(f1) || !ieee_finite(f2)) && !CONST_WANTED)
             goto general_case;
+        /* double is computed as such: rounding twice would not be exact */
+#define FOLD(op) (bt == VT_DOUBLE ? (double)f1 op (double)f2 : f1 op f2)
         switch(op) {
-        case '+': f1 += f2; break;
-        case '-': f1 -= f2; break;
-        case '*': f1 *= f2; break;
+        case '+': f1 = FOLD(+); break;
+        case '-': f1 = FOLD(-); break;
+        case '*': f1 = FOLD(*); break;
         case '/': 
             if (f2 == 0.0) {
                 union { float f; unsigned u; } x1, x2, y;
@@ -2538,8 +2540,9 @@ static void gen_opif(int op)
                 f1 = y.f;
                 break;
             }
-            f1 /= f2;
+            f1 = FOLD(/);
             break;
+#undef FOLD
         case TOK_NEG:
             f1 = -f1;
             goto unary_result;
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 83f9d8c..196f409 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2301,17 +2301,11 @@ static void parse_number(const char *p)
     if (ch == '.' ||
         ((ch == 'e' || ch == 'E') && b == 10) ||
         ((ch == 'p' || ch == 'P') && (b == 16 || b == 2))) {
-        if (b != 10) {
-            /* NOTE: strtox should support that for hexa numbers, but
-               non ISOC99 libcs do not support it, so we prefer to do
-               it by hand */
-            /* hexadecimal or binary floats */
+        if (b == 2) {
+            /* binary floats */
             /* XXX: handle overflows */
             *q = '\0';
-            if (b == 16)
-                shift = 4;
-            else 
-                shift = 1;
+            shift = 1;
             bn_zero(bn);
             q = token_buf;
             while (1) {
@@ -2391,21 +2385,31 @@ static void parse_number(const char *p)
                 tokc.d = d;
             }
         } else {
-            /* decimal floats */
+            /* decimal or hexadecimal floats */
+            if (b == 16) {
+                if (q + 2 >= token_buf + STRING_MAX_SIZE)
+                    goto num_too_long;
+                memmove(token_buf + 2, token_buf, q - token_buf);
+                memcpy(token_buf, "0x", 2);
+                q += 2;
+            }
             if (ch == '.') {
                 if (q >= token_buf + STRING_MAX_SIZE)
                     goto num_too_long;
                 *q++ = ch;
                 ch = *p++;
             float_frac_parse:
-                while (ch >= '0' && ch <= '9') {
+                while ((ch >= '0' && ch <= '9')
+                       || (b == 16 && toup(ch) >= 'A' && toup(ch) <= 'F')) {
                     if (q >= token_buf + STRING_MAX_SIZE)
                         goto num_too_long;
                     *q++ = ch;
                     ch = *p++;
                 }
             }
-            if (ch == 'e' || ch == 'E') {
+            if (b == 16 && ch != 'p' && ch != 'P')
+                expect("exponent");
+            if (ch == 'e' || ch == 'E' || b == 16) {
                 if (q >= token_buf + STRING_MAX_SIZE)
                     goto num_too_long;
                 *q++ = ch;
-- 
2.43.0


From dc06cddaf1d4fabb951892796d01ac4cf7b7d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 059/150] fix: x86_64: a conversion to long double keeps the
 long double operand computed before it

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..c4aea15 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2121,7 +2121,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f); /* cvtps2pd */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movss %xmm0,-0x10(%rsp) */
             o(0x110ff3);
             o(0x44 + REG_VALUE(vtop->r)*8);
@@ -2137,7 +2137,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f66); /* cvtpd2ps */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movsd %xmm0,-0x10(%rsp) */
             o(0x110ff2);
             o(0x44 + REG_VALUE(vtop->r)*8);
-- 
2.43.0


From bbffb4b4f502764f0a4b3ffe136d4a0232c3e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 060/150] fix: x86_64: long double converts to integers with
 its full precision

---
 lib/tinycc/tcctok.h     |  2 ++
 lib/tinycc/x86_64-gen.c | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tcctok.h b/lib/tinycc/tcctok.h
index 08890e1..8e5209b 100644
--- a/lib/tinycc/tcctok.h
+++ b/lib/tinycc/tcctok.h
@@ -295,6 +295,8 @@
 #if defined TCC_TARGET_I386
      DEF(TOK___fixsfdi, "__fixsfdi")
      DEF(TOK___fixdfdi, "__fixdfdi")
+#endif
+#if defined TCC_TARGET_I386 || defined TCC_TARGET_X86_64
      DEF(TOK___fixxfdi, "__fixxfdi")
 #endif
 
diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index c4aea15..aafcb49 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2174,8 +2174,14 @@ void gen_cvt_ftoi(int t)
     ft = vtop->type.t;
     bt = ft & VT_BTYPE;
     if (bt == VT_LDOUBLE) {
-        gen_cvt_ftof(VT_DOUBLE);
-        bt = VT_DOUBLE;
+        /* not through double, which holds fewer bits */
+        vpush_helper_func(TOK___fixxfdi);
+        vswap();
+        gfunc_call(1);
+        vpushi(0);
+        vtop->type.t = VT_LLONG;
+        vtop->r = REG_IRET;
+        return;
     }
 
     gv(RC_FLOAT);
-- 
2.43.0


From 1cc79cec81ca25a29742296d28ec2835c0b4ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 061/150] fix: va_arg of a struct of two SSE eightbytes takes
 both registers or none

---
 lib/tinycc/lib/va_list.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index 1fb5512..6d1c752 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -41,13 +41,15 @@ void *__va_arg(__builtin_va_list ap,
 
     case __va_float_reg:
         if (ap->fp_offset < 128 + 48) {
-            ap->fp_offset += 16;
-            if (size == 8)
-                return ap->reg_save_area + ap->fp_offset - 16;
-            if (ap->fp_offset < 128 + 48) {
-                memcpy(ap->reg_save_area + ap->fp_offset - 8,
-                       ap->reg_save_area + ap->fp_offset, 8);
+            if (size == 8) {
                 ap->fp_offset += 16;
+                return ap->reg_save_area + ap->fp_offset - 16;
+            }
+            /* both halves are in registers or none is */
+            if (ap->fp_offset + 16 < 128 + 48) {
+                ap->fp_offset += 32;
+                memcpy(ap->reg_save_area + ap->fp_offset - 24,
+                       ap->reg_save_area + ap->fp_offset - 16, 8);
                 return ap->reg_save_area + ap->fp_offset - 32;
             }
         }
-- 
2.43.0


From 9c7bdb4ac82a4c1087db4ee0fd4097531fc58ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 062/150] fix: x86_64: classify an array member of a small
 struct by its elements

---
 lib/tinycc/x86_64-gen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index aafcb49..009e8ef 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1105,9 +1105,14 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
     case VT_SHORT:
     case VT_LLONG:
     case VT_BOOL:
-    case VT_PTR:
     case VT_FUNC:
         return x86_64_mode_integer;
+
+    case VT_PTR:
+        /* a member that is an array counts as its elements */
+        if (ty->t & VT_ARRAY)
+            return classify_x86_64_inner(&ty->ref->type);
+        return x86_64_mode_integer;
     
     case VT_FLOAT:
     case VT_DOUBLE: return x86_64_mode_sse;
-- 
2.43.0


From ff45a4ac24151fba80c4e25d880b9707fce08753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 063/150] fix: pop the x87 stack after storing a returned
 struct of a long double

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 76f1b0d..7d29a28 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6184,7 +6184,7 @@ special_math_val:
                         vset(&ret.type, VT_LOCAL | VT_LVAL, addr + offset);
                         vswap();
                         vstore();
-                        vtop--;
+                        vpop();
                         if (--ret_nregs == 0)
                           break;
                         offset += regsize;
-- 
2.43.0


From 6ce8a7a2292ec5a0f6981c92b62b05c68aa2946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 064/150] fix: x86_64: zero-extend an unsigned int result,
 whose upper half the ABI leaves undefined

---
 lib/tinycc/x86_64-gen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 009e8ef..7334479 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1446,6 +1446,10 @@ void gfunc_call(int nb_args)
     if (vtop->type.ref->f.func_type != FUNC_NEW) /* implies FUNC_OLD or FUNC_ELLIPSIS */
         oad(0xb8, nb_sse_args < 8 ? nb_sse_args : 8); /* mov nb_sse_args, %eax */
     gcall_or_jmp(0);
+    /* the upper half of the register is undefined for an unsigned int, but
+       conversions to 64 bits rely on it */
+    if ((vtop->type.ref->type.t & (VT_BTYPE | VT_UNSIGNED)) == (VT_INT | VT_UNSIGNED))
+        o(0xc089); /* mov %eax, %eax */
     if (args_size)
         gadd_sp(args_size);
     vtop--;
-- 
2.43.0


From b08dafb9c0ade74d657ec0186e28b5864095f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 065/150] fix: evaluate #if expressions in intmax_t/uintmax_t

---
 lib/tinycc/tcc.h    |  1 +
 lib/tinycc/tccgen.c |  5 +++--
 lib/tinycc/tccpp.c  | 12 +++++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 5b9b0ca..d91c12d 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1512,6 +1512,7 @@ ST_FUNC CString* parse_asm_str(void);
 ST_FUNC void indir(void);
 ST_FUNC void unary(void);
 ST_FUNC void gexpr(void);
+ST_FUNC int64_t expr_const64(void);
 ST_FUNC int expr_const(void);
 #if defined CONFIG_TCC_BCHECK || defined TCC_TARGET_C67
 ST_FUNC Sym *get_sym_ref(CType *type, Section *sec, unsigned long offset, unsigned long size);
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 7d29a28..ce92c10 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -146,7 +146,6 @@ static int decl(int l);
 static void expr_eq(void);
 static void vpush_type_size(CType *type, int *a);
 static int is_compatible_unqualified_types(CType *type1, CType *type2);
-static inline int64_t expr_const64(void);
 static void vpush64(int ty, unsigned long long v);
 static void vpush(CType *type);
 static int gvtst(int inv, int t);
@@ -3074,6 +3073,8 @@ op_err:
         }
     std_op:
         t = t2 = combtype.t;
+        if (pp_expr && (t & VT_BTYPE) == VT_INT)
+            t = t2 = (t & ~VT_BTYPE) | VT_LLONG; /* #if computes in intmax_t */
         /* special case for shifts and long long: we keep the shift as
            an integer */
         if (op_class == SHIFT_OP)
@@ -6615,7 +6616,7 @@ static void expr_const1(void)
 }
 
 /* parse an integer constant and return its value. */
-static inline int64_t expr_const64(void)
+ST_FUNC int64_t expr_const64(void)
 {
     int64_t c;
     expr_const1();
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 196f409..1bf9f20 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1514,6 +1514,9 @@ static int expr_preprocess(TCCState *s1)
             tok = TOK_CINT;
             tokc.i = 0;
         }
+        /* all types are intmax_t or uintmax_t here, see also parse_number() */
+        if (tok == TOK_CINT || tok == TOK_CCHAR || tok == TOK_LCHAR)
+            tokc.i = (int)tokc.i, tok = TOK_CLLONG;
         tok_str_add_tok(str);
     }
     if (0 == str->len)
@@ -1524,13 +1527,13 @@ static int expr_preprocess(TCCState *s1)
     /* now evaluate C constant expression */
     begin_macro(str, 1);
     next();
-    c = expr_const();
+    c = expr_const64() != 0;
     if (tok != TOK_EOF)
         tcc_error("...");
     pp_expr = 0;
     end_macro();
     tok = t; /* restore LF or EOF */
-    return c != 0;
+    return c;
 }
 
 ST_FUNC void pp_error(CString *cs)
@@ -1949,7 +1952,7 @@ ST_FUNC void preprocess(int is_bof)
                 goto ignore;
             else
                 goto _line_err;
-            next_nomacro();
+            next();
         }
         if (file->fd > 0)
             total_lines += file->line_num - n;
@@ -2505,6 +2508,9 @@ static void parse_number(const char *p)
             }
         }
 
+        if (pp_expr)
+            lcount = 2; /* intmax_t */
+
         /* Determine if it needs 64 bits and/or unsigned in order to fit */
         if (ucount == 0 && b == 10) {
             if (lcount <= (LONG_SIZE == 4)) {
-- 
2.43.0


From f5f122d39650bc3cc1e1f8a06d34c4fa696b689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 066/150] fix: macro-expand the operands of #line

---
 lib/tinycc/tccpp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 1bf9f20..8d06bd4 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1936,14 +1936,16 @@ ST_FUNC void preprocess(int is_bof)
         }
         break;
     case TOK_LINE:
-        next_nomacro();
+        parse_flags &= ~PARSE_FLAG_TOK_NUM;
+        next(); /* do macro subst */
         if (tok != TOK_PPNUM)
     _line_err:
             tcc_error("wrong #line format");
     case TOK_PPNUM:
         parse_number(tokc.str.data);
         n = tokc.i;
-        next_nomacro();
+        parse_flags &= ~PARSE_FLAG_TOK_STR;
+        next();
         if (tok != TOK_LINEFEED) {
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
                 tokc.str.data[tokc.str.size - 2] = 0;
-- 
2.43.0


From 78c3a83e5289d5486453ef5eb71868adee3bb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 067/150] fix: take -e as the entry function, not as --verb

---
 src/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index ffbe630..c170d96 100644
--- a/src/main.c
+++ b/src/main.c
@@ -156,8 +156,8 @@ int main(int argc, char **argv) {
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
-	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "help", ko_no_argument, 300 },
+	  { "verb", ko_no_argument, 301 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -175,11 +175,11 @@ int main(int argc, char **argv) {
 			  CJIT->quiet = true;
 	  } else if (c == 'v') {
 		  CJIT->print_status = true;
-	  } else if (c=='h' || c==100) { // help
+	  } else if (c=='h' || c==300) { // help
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==301 ) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From a466d199d8443534dad88f35389884f61b3f7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 068/150] fix: refuse a directory given as a source or object
 file

---
 lib/tinycc/libtcc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 5b6606e..8b7cd20 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -62,6 +62,9 @@
 
 #define TCC_SEM_IMPL 1
 #include "tcc.h"
+#ifndef _WIN32
+#include <sys/stat.h> /* fstat() */
+#endif
 
 /********************************************************/
 /* global variables */
@@ -712,8 +715,17 @@ static int _tcc_open(TCCState *s1, const char *filename)
     int fd;
     if (strcmp(filename, "-") == 0)
         fd = 0, filename = "<stdin>";
-    else
+    else {
         fd = open(filename, O_RDONLY | O_BINARY);
+#ifndef _WIN32
+        /* a directory can be opened, but not read */
+        struct stat st;
+        if (fd >= 0 && 0 == fstat(fd, &st) && S_ISDIR(st.st_mode)) {
+            close(fd);
+            fd = -1;
+        }
+#endif
+    }
     if ((s1->verbose == 2 && fd >= 0) || s1->verbose == 3)
         printf("%s %*s%s\n", fd < 0 ? "nf":"->",
                (int)(s1->include_stack_ptr - s1->include_stack), "", filename);
-- 
2.43.0


From baf288539d78d97be799b6ab075bd07088630efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 069/150] fix: a byte 0xff ended a linker script

---
 lib/tinycc/tccelf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..0d9b68c 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3750,7 +3750,7 @@ ST_FUNC int tcc_load_dll(TCCState *s1, int fd, const char *filename, int level)
 
 static int ld_inp(TCCState *s1)
 {
-    char b;
+    unsigned char b;
     if (s1->cc != -1) {
         int c = s1->cc;
         s1->cc = -1;
-- 
2.43.0


From be7f7c68e5587455e18af528ffe6cf3d746b619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 070/150] fix: reject a switch value that is not an integer

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index ce92c10..90373da 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7173,6 +7173,8 @@ again:
         new_scope_s(&o);
         skip('(');
         gexpr();
+        if (!is_integer_btype(vtop->type.t & VT_BTYPE))
+            tcc_error("switch value not an integer");
         skip(')');
         sw->sv = *vtop--; /* save switch value */
         a = 0;
-- 
2.43.0


From 0e1f65991a2aac26754b8e1c80552594da27d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 071/150] fix: refuse malformed object files instead of reading
 beyond their tables

---
 lib/tinycc/tccelf.c | 94 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 0d9b68c..ccbca14 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3063,6 +3063,94 @@ ST_FUNC int tcc_object_type(int fd, ElfW(Ehdr) *h)
     return 0;
 }
 
+/* check that everything the section headers of an object file refer to
+   lies within the file and within the tables */
+static int check_object_file(int fd, unsigned long file_offset, ElfW(Ehdr) *ehdr)
+{
+    ElfW(Shdr) *shdr = NULL, *sh, *st;
+    ElfW(Sym) *symtab = NULL, *sym;
+    ElfW_Rel *reltab, *rel;
+    char *strtab = NULL;
+    unsigned long avail;
+    int i, j, ret = -1;
+    long end = lseek(fd, 0, SEEK_END);
+
+    if (end < 0 || file_offset > (unsigned long)end)
+        return -1;
+    avail = end - file_offset;
+    if (ehdr->e_shentsize != sizeof *shdr
+        || ehdr->e_shstrndx >= ehdr->e_shnum
+        || ehdr->e_shoff > avail
+        || ehdr->e_shnum * sizeof *shdr > avail - ehdr->e_shoff)
+        return -1;
+    shdr = load_data(fd, file_offset + ehdr->e_shoff, ehdr->e_shnum * sizeof *shdr);
+    for (i = 1; i < ehdr->e_shnum; i++) {
+        sh = &shdr[i];
+        if (sh->sh_type == SHT_NULL)
+            continue;
+        if (sh->sh_type != SHT_NOBITS
+            && (sh->sh_offset > avail || sh->sh_size > avail - sh->sh_offset))
+            goto the_end;
+        if (sh->sh_link >= ehdr->e_shnum
+            || (sh->sh_addralign & (sh->sh_addralign - 1))
+            || sh->sh_name >= shdr[ehdr->e_shstrndx].sh_size)
+            goto the_end;
+        if (sh->sh_type == SHT_RELX
+            && (sh->sh_info >= ehdr->e_shnum || sh->sh_size % sizeof *rel
+                || shdr[sh->sh_info].sh_type == SHT_RELX))
+            goto the_end;
+    }
+    /* string tables end with a zero */
+    for (i = 1; i < ehdr->e_shnum; i++) {
+        st = NULL;
+        if (i == ehdr->e_shstrndx)
+            st = &shdr[i];
+        else if (shdr[i].sh_type == SHT_SYMTAB)
+            st = &shdr[shdr[i].sh_link];
+        if (!st)
+            continue;
+        if (st->sh_type != SHT_STRTAB || !st->sh_size)
+            goto the_end;
+        tcc_free(strtab);
+        strtab = load_data(fd, file_offset + st->sh_offset, st->sh_size);
+        if (strtab[st->sh_size - 1])
+            goto the_end;
+        if (i == ehdr->e_shstrndx)
+            continue;
+        tcc_free(symtab);
+        symtab = load_data(fd, file_offset + shdr[i].sh_offset, shdr[i].sh_size);
+        for (j = 1; j < shdr[i].sh_size / sizeof *sym; j++) {
+            sym = &symtab[j];
+            if (sym->st_name >= st->sh_size
+                || (sym->st_shndx >= ehdr->e_shnum && sym->st_shndx < SHN_LORESERVE))
+                goto the_end;
+        }
+    }
+    /* relocations apply to the contents of their section */
+    for (i = 1; i < ehdr->e_shnum; i++) {
+        sh = &shdr[i];
+        if (sh->sh_type != SHT_RELX)
+            continue;
+        st = &shdr[sh->sh_info];
+        reltab = load_data(fd, file_offset + sh->sh_offset, sh->sh_size);
+        for (j = 0; j < sh->sh_size / sizeof *rel; j++) {
+            rel = &reltab[j];
+            if (ELFW(R_TYPE)(rel->r_info)
+                && (st->sh_type == SHT_NOBITS || rel->r_offset >= st->sh_size))
+                break;
+        }
+        tcc_free(reltab);
+        if (j < sh->sh_size / sizeof *rel)
+            goto the_end;
+    }
+    ret = 0;
+the_end:
+    tcc_free(strtab);
+    tcc_free(symtab);
+    tcc_free(shdr);
+    return ret;
+}
+
 /* load an object file and merge it with current files */
 /* XXX: handle correctly stab (debug) info */
 ST_FUNC int tcc_load_object_file(TCCState *s1,
@@ -3085,8 +3173,10 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     if (tcc_object_type(fd, &ehdr) != AFF_BINTYPE_REL)
         goto invalid;
     /* test CPU specific stuff */
-    if (ehdr.e_ident[5] != ELFDATA2LSB ||
-        ehdr.e_machine != EM_TCC_TARGET) {
+    if (ehdr.e_ident[4] != ELFCLASSW ||
+        ehdr.e_ident[5] != ELFDATA2LSB ||
+        ehdr.e_machine != EM_TCC_TARGET ||
+        check_object_file(fd, file_offset, &ehdr) < 0) {
 invalid:
         return tcc_error_noabort("invalid object file");
     }
-- 
2.43.0


From 50ed5f690c5e21ea0ac452cd9ff4e6ab95609afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 072/150] fix: an error in inline assembly named the line
 before

---
 lib/tinycc/libtcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 8b7cd20..07c4d97 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -603,7 +603,7 @@ static void error1(int mode, const char *fmt, va_list ap)
             cstr_printf(&cs, "In file included from %s:%d:\n",
                 (*pf)->filename, (*pf)->line_num - 1);
         cstr_printf(&cs, "%s:%d: ",
-            f->filename, f->line_num - ((tok_flags & TOK_FLAG_BOL) && !macro_ptr));
+            f->filename, f->line_num - (f == file && (tok_flags & TOK_FLAG_BOL) && !macro_ptr));
     } else if (s1->current_filename) {
         cstr_printf(&cs, "%s: ", s1->current_filename);
     } else {
-- 
2.43.0


From bd33d1712bb731fb66c741d6d864d465ebe13797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 073/150] fix: convert case values to the promoted type of the
 switch expression

---
 lib/tinycc/tccgen.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 90373da..fd0839d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6741,6 +6741,17 @@ static void gtst_addr(int t, int a)
     gsym_addr(gvtst(0, t), a);
 }
 
+/* a case value is converted to the promoted type of the switch value */
+static int64_t case_value(CType *type)
+{
+    int64_t v = expr_const64();
+    if ((type->t & VT_BTYPE) == VT_LLONG)
+        return v;
+    if (type->t & VT_UNSIGNED)
+        return (uint32_t)v;
+    return (int32_t)v;
+}
+
 static void gcase(struct case_t **base, int len, int *bsym)
 {
     struct case_t *p;
@@ -7175,6 +7186,7 @@ again:
         gexpr();
         if (!is_integer_btype(vtop->type.t & VT_BTYPE))
             tcc_error("switch value not an integer");
+        vpushi(0), gen_op('+'); /* integer promotions */
         skip(')');
         sw->sv = *vtop--; /* save switch value */
         a = 0;
@@ -7215,10 +7227,10 @@ again:
             expect("switch");
         cr = tcc_malloc(sizeof(struct case_t));
         dynarray_add(&cur_switch->p, &cur_switch->n, cr);
-        cr->v1 = cr->v2 = expr_const64();
+        cr->v1 = cr->v2 = case_value(&cur_switch->sv.type);
         if (gnu_ext && tok == TOK_DOTS) {
             next();
-            cr->v2 = expr_const64();
+            cr->v2 = case_value(&cur_switch->sv.type);
             if ((!(cur_switch->sv.type.t & VT_UNSIGNED) && cr->v2 < cr->v1)
                 || (cur_switch->sv.type.t & VT_UNSIGNED && (uint64_t)cr->v2 < (uint64_t)cr->v1))
                 tcc_warning("empty case range");
-- 
2.43.0


From 2525c50595cf6de4dc0535a71b2569a717070b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 074/150] fix: a shared object given by a bare file name is the
 one in the working directory

---
 lib/tinycc/libtcc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 07c4d97..4544556 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1094,7 +1094,14 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
         case AFF_BINTYPE_DYN:
             if (s1->output_type == TCC_OUTPUT_MEMORY) {
 #ifdef TCC_IS_NATIVE
-                void* dl = dlopen(filename, RTLD_GLOBAL | RTLD_LAZY);
+                /* without a slash dlopen() would search the loader's
+                   directories instead of opening this file */
+                char *path = tcc_malloc(strlen(filename) + 3);
+                void *dl;
+                sprintf(path, "./%s", filename);
+                dl = dlopen(strchr(filename, '/') ? filename : path,
+                            RTLD_GLOBAL | RTLD_LAZY);
+                tcc_free(path);
                 if (dl)
                     tcc_add_dllref(s1, filename, 0)->handle = dl, ret = 0;
 #endif
-- 
2.43.0


From 2ab442e18969475bfbafb5db773c769936224009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 075/150] fix: destructors of loaded libraries ran a second
 time in cjit itself

---
 src/cjit.c | 1 +
 src/main.c | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 26f0230..bfb4a41 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -641,6 +641,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
 	cjit->done_exec = true;
+	fflush(NULL); // output of library constructors comes out once
 	pid = fork();
 	if (pid == 0) {
 		// constructors and destructors, as the system loader does
diff --git a/src/main.c b/src/main.c
index c170d96..337eda5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,6 +394,10 @@ int main(int argc, char **argv) {
 	  int right_args = argc-left_args+1;//arg_separator? argc-arg_separator : 0;
 	  char **right_argv = &clean_argv[left_args-1];//arg_separator?&argv[arg_separator]:0
 	  res = cjit_exec(CJIT, right_args, right_argv);
+#if !defined(_WIN32)
+	  // the libraries' destructors belong to the executed process
+	  if(CJIT->done_exec) _exit(res);
+#endif
   }
   endgame:
   // release buffer instantiated by remove_args
-- 
2.43.0


From ffa915f906435f1d525acd8edd8bd96716553523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 076/150] fix: debugging flags in the CFLAGS variable crashed
 cjit

---
 src/cjit.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index bfb4a41..3fa8bb7 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -241,10 +241,7 @@ static bool cjit_setup(CJITState *cjit) {
 		return(NULL);
 	}
 #endif
-	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
-#if defined(LIBC_MUSL)
-	tcc_add_libc_symbols(tcc(cjit));
-#endif
+	// compiler flags come before the output type, which sets up debug info
 	if(getenv("CFLAGS")) {
 		char *extra_cflags = NULL;
 		extra_cflags = getenv("CFLAGS");
@@ -252,6 +249,10 @@ static bool cjit_setup(CJITState *cjit) {
 		debug(" -C %s",extra_cflags);
 		tcc_set_options(tcc(cjit), extra_cflags);
 	}
+	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
+#if defined(LIBC_MUSL)
+	tcc_add_libc_symbols(tcc(cjit));
+#endif
 #if defined(WINDOWS)
 	// add symbols for windows compatibility
 	tcc_add_symbol(tcc(cjit), "usleep", &win_compat_usleep);
-- 
2.43.0


From 48d924164208137416408bb3847af5dca21323c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 077/150] fix: ship the runtime objects that the debugging
 flags -g, -b and -bt need

---
 build/embed-asset-path.sh | 4 ++--
 build/init.mk             | 5 +++++
 build/linux.mk            | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/build/embed-asset-path.sh b/build/embed-asset-path.sh
index 5d3043c..31a727a 100644
--- a/build/embed-asset-path.sh
+++ b/build/embed-asset-path.sh
@@ -54,8 +54,8 @@ else
     sed -i -e 's/unsigned int/const unsigned int/' $dst
 fi
 
-# xxd already converts dots in underscores
-varname=`echo $name | sed 's/\./_/g'`
+# xxd already converts dots and dashes in underscores
+varname=`echo $name | sed 's/[-.]/_/g'`
 
 # generate assets in source for extract_assets(char *tmpdir)
 echo >> src/assets.h
diff --git a/build/init.mk b/build/init.mk
index ae1b677..8f32748 100644
--- a/build/init.mk
+++ b/build/init.mk
@@ -23,6 +23,10 @@ SOURCES := src/file.o src/cjit.o \
            src/embed_libtcc1.a.o src/embed_include.o \
            src/cjit-ar.o
 
+# runtime support of the debugging flags -g -b -bt, set where available
+support_objs ?=
+SOURCES += ${support_objs:%=src/embed_%.o}
+
 #src/embed_source.o
 
 
@@ -38,6 +42,7 @@ embed-posix: lib/tinycc/libtcc1.a
 	$(info Embedding assets for POSIX build)
 	bash build/init-assets.sh
 	bash build/embed-asset-path.sh lib/tinycc/libtcc1.a
+	for o in ${support_objs}; do bash build/embed-asset-path.sh lib/tinycc/$$o || exit 1; done
 	bash build/embed-asset-path.sh lib/tinycc/include
 	@echo                 >> src/assets.c
 	@echo "return(cjit_assets_done(CJIT));" >> src/assets.c
diff --git a/build/linux.mk b/build/linux.mk
index ad0836a..c3a638b 100644
--- a/build/linux.mk
+++ b/build/linux.mk
@@ -1,3 +1,5 @@
+support_objs := bcheck.o bt-exe.o bt-log.o
+
 include build/init.mk
 
 cflags += -DLIBC_GNU
-- 
2.43.0


From 326f37908011fbc43369a7a68c500ea9e4a6a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 078/150] fix: the value of an option was dropped when it
 looked like an ignored option

---
 src/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.c b/src/main.c
index 337eda5..198f98f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -407,6 +407,14 @@ int main(int argc, char **argv) {
   exit(res);
 }
 
+// true when the next word is the value of this option
+static bool needs_value(const char *arg) {
+    if (strcmp(arg, "--xtgz") == 0) return true;
+    if (*arg++ != '-') return false;
+    while (*arg && strchr("qhvcg", *arg)) arg++; // flags come in groups
+    return *arg && strchr("DLlCIepoa", *arg) && !arg[1];
+}
+
 char** remove_args(int* argc, char** argv,
 				   const char** to_remove, int remove_count) {
     if (*argc == 0 || argv == NULL
@@ -424,6 +432,10 @@ char** remove_args(int* argc, char** argv,
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
         if (strcmp(argv[i], "--") == 0) break; // app arguments follow
+        if (i && needs_value(argv[i])) {
+            i++; // taken as it is
+            continue;
+        }
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From 11f056a42b66d966a8b8d6446f4d13d775c12cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 079/150] fix: -c took only some of the source extensions and
 options of the include path

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 3fa8bb7..a101fc8 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -526,7 +526,7 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 	}
 	setup;
 	int res;
-	if(tcc_add_file(tcc(cjit), path)<0) {
+	if(!cjit_add_source(cjit, path)) {
 		_err("%s: error: %s",__func__, path);
 		return false;
 	}
-- 
2.43.0


From b1d652b01379176c9f4eb0607c4c66ae5469bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 080/150] fix: a function of a library had two addresses in
 executables and shared objects

---
 lib/tinycc/tccelf.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ccbca14..2f67ae2 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -862,6 +862,12 @@ static void sort_syms(TCCState *s1, Section *s)
 /* See: https://flapenguin.me/elf-dt-gnu-hash */
 #define	ELFCLASS_BITS (PTR_SIZE * 8)
 
+/* to be found by ld.so: defined, or a function with its address here */
+static int dynsym_is_def(ElfW(Sym) *sym)
+{
+    return sym->st_shndx != SHN_UNDEF || sym->st_value;
+}
+
 static Section *create_gnu_hash(TCCState *s1)
 {
     int nb_syms, i, ndef, nbuckets, symoffset, bloom_size, bloom_shift;
@@ -879,7 +885,7 @@ static Section *create_gnu_hash(TCCState *s1)
     ndef = 0;
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        ndef += p->st_shndx != SHN_UNDEF;
+        ndef += dynsym_is_def(p);
 
     /* calculate gnu hash sizes and fill header */
     nbuckets = ndef / 4 + 1;
@@ -934,7 +940,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
     p = (ElfW(Sym) *)dynsym->data;
     q = new_syms;
     for(i = 0; i < nb_syms; i++, p++) {
-        if (p->st_shndx == SHN_UNDEF) {
+        if (!dynsym_is_def(p)) {
             old_to_new_syms[i] = q - new_syms;
             *q++ = *p;
         }
@@ -963,7 +969,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
 
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        if (p->st_shndx != SHN_UNDEF) {
+        if (dynsym_is_def(p)) {
 	    int bucket = hash[i] % nbuckets;
 
 	    if (buck[bucket].first == -1)
@@ -1405,8 +1411,20 @@ redo:
 			if (dynindex
 			    && (ELFW(ST_TYPE)(esym->st_info) == STT_FUNC
 				|| (ELFW(ST_TYPE)(esym->st_info) == STT_NOTYPE
-				    && ELFW(ST_TYPE)(sym->st_info) == STT_FUNC)))
+				    && ELFW(ST_TYPE)(sym->st_info) == STT_FUNC))) {
+#ifdef TCC_TARGET_X86_64
+			    /* The address of the function is stored: it has
+			       to be the same one everywhere.  In a DLL ld.so
+			       stores it; in an EXE our PLT slot becomes the
+			       address, see relocate_plt_addrs.  */
+			    if (type == R_X86_64_64
+				&& (s1->output_type & TCC_OUTPUT_DYN))
+				continue;
+			    if (type != R_X86_64_PC32 && type != R_X86_64_PC64)
+				esym->st_value = 1;
+#endif
 			    goto jmp_slot;
+			}
 		    }
                 } else if (sym->st_shndx == SHN_ABS) {
                     if (sym->st_value == 0) /* from tcc_add_btstub() */
@@ -2795,6 +2813,21 @@ static Section *create_bsd_note_section(TCCState *s1,
 
 static void alloc_sec_names(TCCState *s1, int is_obj);
 
+/* functions whose address is stored in the program: ld.so and everybody
+   else take the PLT slot for the function */
+static void relocate_plt_addrs(TCCState *s1)
+{
+    int i;
+    for (i = 0; i < s1->nb_sym_attrs; i++) {
+        struct sym_attr *attr = &s1->sym_attrs[i];
+        if (attr->dyn_index && attr->plt_offset) {
+            ElfW(Sym) *esym = (ElfW(Sym) *)s1->dynsym->data + attr->dyn_index;
+            if (esym->st_shndx == SHN_UNDEF && esym->st_value)
+                esym->st_value = s1->plt->sh_addr + attr->plt_offset;
+        }
+    }
+}
+
 /* Output an elf, coff or binary file */
 /* XXX: suppress unneeded sections */
 static int elf_output_file(TCCState *s1, const char *filename)
@@ -2930,6 +2963,7 @@ static int elf_output_file(TCCState *s1, const char *filename)
                 relocate_plt(s1);
             /* relocate symbols in .dynsym now that final addresses are known */
             relocate_syms(s1, s1->dynsym, 2);
+            relocate_plt_addrs(s1);
         }
 
         /* if building executable or DLL, then relocate each section
-- 
2.43.0


From 200c921bb833d25bf8603900ff60a29cd60d501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 081/150] fix: cjit -ar refused objects whose section header
 table is not aligned to 8

---
 src/cjit-ar.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 81f7126..08d0a3b 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -85,7 +85,6 @@ static int valid_object(const char *buf, int fsize) {
         return 1;
     if (ehdr->e_shentsize != sizeof(*shdr)
         || ehdr->e_shstrndx >= ehdr->e_shnum
-        || ehdr->e_shoff % sizeof(ElfW(Addr))
         || !in_file(ehdr->e_shoff, ehdr->e_shnum * sizeof(*shdr), fsize))
         return 0;
     shdr = (const ElfW(Shdr) *)(buf + ehdr->e_shoff);
@@ -103,8 +102,7 @@ static int valid_object(const char *buf, int fsize) {
         if (s->sh_type == SHT_SYMTAB) {
             const ElfW(Sym) *sym = (const ElfW(Sym) *)(buf + s->sh_offset);
             int j, n = s->sh_size / sizeof(*sym);
-            if (s->sh_offset % sizeof(ElfW(Addr))
-                || s->sh_link >= ehdr->e_shnum
+            if (s->sh_link >= ehdr->e_shnum
                 || shdr[s->sh_link].sh_type != SHT_STRTAB)
                 return 0;
             for (j = 0; j < n; j++)
-- 
2.43.0


From 6ea7a19f5855e40577ccf6a3e04cbc4077fd5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 082/150] fix: cjit -ar wrote no index for objects without
 global symbols, so that ld refused the archive

---
 src/cjit-ar.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 08d0a3b..88d4602 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -387,18 +387,16 @@ finish:
         hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    if (funccnt) { // without symbols there is no index
-        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-        memcpy(&arhdr.ar_size, stmp, 10);
-        fwrite(&arhdr, sizeof(arhdr), 1, fh);
-        afpos[0] = le2belong(funccnt);
-        for (i=1; i<=funccnt; i++)
-            afpos[i] = le2belong(afpos[i] + hofs);
-        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-        fwrite(anames, strpos, 1, fh);
-        if (fpos)
-            fwrite("", 1, 1, fh);
-    }
+    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+    memcpy(&arhdr.ar_size, stmp, 10);
+    fwrite(&arhdr, sizeof(arhdr), 1, fh);
+    afpos[0] = le2belong(funccnt);
+    for (i=1; i<=funccnt; i++)
+        afpos[i] = le2belong(afpos[i] + hofs);
+    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+    fwrite(anames, strpos, 1, fh);
+    if (fpos)
+        fwrite("", 1, 1, fh);
     // write objects
     fseek(fo, 0, SEEK_END);
     fsize = ftell(fo);
-- 
2.43.0


From e253f2b7f44b0c20a2fae46f698ba2870ac951b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 083/150] fix: a weak reference pulled in archive members and
 made strong references weak

---
 lib/tinycc/tccelf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 2f67ae2..ca22ee2 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -716,6 +716,9 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
             }
         } else {
             esym->st_other = other;
+            /* a weak reference does not make a strong one weak */
+            if (shndx == SHN_UNDEF && sym_bind == STB_WEAK)
+                sym_bind = ELFW(ST_BIND)(esym->st_info);
         do_patch:
             esym->st_info = ELFW(ST_INFO)(sym_bind, sym_type);
             esym->st_shndx = shndx;
@@ -3542,6 +3545,9 @@ static int tcc_load_alacarte(TCCState *s1, int fd, int size, int entrysize)
             sym = &((ElfW(Sym) *)s->data)[sym_index];
             if(sym->st_shndx != SHN_UNDEF)
                 continue;
+            /* a weak reference does not pull in a member */
+            if(ELFW(ST_BIND)(sym->st_info) == STB_WEAK)
+                continue;
             off = get_be(ar_index + i * entrysize, entrysize);
             len = read_ar_header(fd, off, &hdr);
             if (len <= 0 || memcmp(hdr.ar_fmag, ARFMAG, 2)) {
-- 
2.43.0


From 8ee3153efc989a7562748505486b8c739bc197c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 084/150] fix: duplicate symbols of objects and archive members
 did not stop the link

---
 lib/tinycc/tccelf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ca22ee2..fa889de 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2841,7 +2841,6 @@ static int elf_output_file(TCCState *s1, const char *filename)
     int textrel, got_sym, dt_flags_1;
 
     file_type = s1->output_type;
-    s1->nb_errors = 0;
     ret = -1;
     interp = dynstr = dynamic = NULL;
     sec_order = NULL;
@@ -3197,6 +3196,7 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     ElfW(Shdr) *shdr, *sh;
     unsigned long size, offset, offseti;
     int i, j, nb_syms, sym_index, ret, seencompressed;
+    int nb_errors = s1->nb_errors;
     char *strsec, *strtab;
     int stab_index, stabstr_index;
     int *old_to_new_syms;
@@ -3470,7 +3470,7 @@ invalid:
         }
     }
 
-    ret = 0;
+    ret = s1->nb_errors > nb_errors ? -1 : 0;
  the_end:
     tcc_free(symtab);
     tcc_free(strtab);
-- 
2.43.0


From 67b18773e7b15daa851bd435c632e42ada498ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 085/150] fix: hidden symbols of an executable preempted those
 of shared libraries

---
 lib/tinycc/tccelf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index fa889de..f0b27e6 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1305,7 +1305,11 @@ static struct sym_attr * put_got_entry(TCCState *s1, int dyn_reloc_type,
     //printf("sym %d %s\n", need_plt_entry, name);
 
     if (s1->dynsym) {
-	if (ELFW(ST_BIND)(sym->st_info) == STB_LOCAL) {
+	int vis = ELFW(ST_VISIBILITY)(sym->st_other);
+	if (ELFW(ST_BIND)(sym->st_info) == STB_LOCAL
+	    /* hidden symbols are not for other modules either */
+	    || (!need_plt_entry && sym->st_shndx != SHN_UNDEF
+		&& (vis == STV_HIDDEN || vis == STV_INTERNAL))) {
 	    /* Hack alarm.  We don't want to emit dynamic symbols
 	       and symbol based relocs for STB_LOCAL symbols, but rather
 	       want to resolve them directly.  At this point the symbol
@@ -2054,6 +2058,8 @@ static void bind_libs_dynsyms(TCCState *s1)
         dynsym_index = find_elf_sym(s1->dynsymtab_section, name);
         if (sym->st_shndx != SHN_UNDEF) {
             if (ELFW(ST_BIND)(sym->st_info) != STB_LOCAL
+                && ELFW(ST_VISIBILITY)(sym->st_other) != STV_HIDDEN
+                && ELFW(ST_VISIBILITY)(sym->st_other) != STV_INTERNAL
                 && (dynsym_index || s1->rdynamic))
                 set_elf_sym(s1->dynsym, sym->st_value, sym->st_size,
                             sym->st_info, 0, sym->st_shndx, name);
-- 
2.43.0


From 0c76e50069abc2fd19c5463ed0e4dafe5c552d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 086/150] fix: messages crashed cjit with standard error closed

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index a101fc8..6a10c1e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -770,5 +770,5 @@ void _err(const char *fmt, ...) {
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-	fail("_err()");
+	return; // nowhere to tell: fail() comes back here
 }
-- 
2.43.0


From 25754af70ffa209af85e296c97eaba7b6ba79755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 087/150] fix: errno was not zero at the start of the program

---
 src/cjit.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 6a10c1e..d7e8def 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -652,24 +652,14 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		fini_start = tcc_get_symbol(tcc(cjit), "__fini_array_start");
 		fini_end = tcc_get_symbol(tcc(cjit), "__fini_array_end");
 		atexit(run_fini_array);
+		errno = 0; // is zero at program startup
 		while(ini != ini_end) (*ini++)(argc, argv, environ);
 		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
-		if(cjit->write_pid) {
-			// pid_t pid = getpid();
-			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
-				fail(cjit->write_pid);
-				_err("Cannot create pid file");
-				return -1;
-			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
-		}
 		int status;
 		int ret;
-		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
+		ret = waitpid(pid, &status, 0);
 		if (ret != pid){
 			_err("Wait error in source: %s",cjit->entry);
 		}
-- 
2.43.0


From ebedcca99c9a2de3505765002139b33eefd8a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 088/150] fix: the pid file could come after the program's
 start, and cjit returned while the program was stopped or could not write it

---
 src/cjit.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index d7e8def..92f49cf 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -645,6 +645,17 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	fflush(NULL); // output of library constructors comes out once
 	pid = fork();
 	if (pid == 0) {
+		// written by the program's process before anything of it runs
+		if(cjit->write_pid) {
+			FILE *fd = fopen(cjit->write_pid, "w");
+			if(!fd) {
+				fail(cjit->write_pid);
+				_err("Cannot create pid file");
+				_exit(255);
+			}
+			fprintf(fd,"%d\n",getpid());
+			fclose(fd);
+		}
 		// constructors and destructors, as the system loader does
 		cjit_initfunc *ini, *ini_end;
 		ini = tcc_get_symbol(tcc(cjit), "__init_array_start");
@@ -669,12 +680,6 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		} else if (WIFSIGNALED(status)) {
 			res = WTERMSIG(status);
 			_err("Process terminated with signal %d", WTERMSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			//_err("Process has returned %d", WSTOPSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			_err("Process stopped with signal", WSTOPSIG(status));
 		} else {
 			_err("wait: unknown status: %d", status);
 		}
-- 
2.43.0


From 44ddf5b1966807783910d959b2691efda33e61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 089/150] fix: a source file opened as descriptor 0 was left
 open for the program

---
 lib/tinycc/libtcc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 4544556..637d973 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -717,6 +717,8 @@ static int _tcc_open(TCCState *s1, const char *filename)
         fd = 0, filename = "<stdin>";
     else {
         fd = open(filename, O_RDONLY | O_BINARY);
+        if (fd == 0) /* stands for stdin, which is never closed */
+            fd = dup(0), close(0);
 #ifndef _WIN32
         /* a directory can be opened, but not read */
         struct stat st;
-- 
2.43.0


From b09e4e3d4cf412f0c96e6b1ba37932a0ede00a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 090/150] fix: values of -MF, -MT and -MQ were taken as source
 files

---
 src/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.c b/src/main.c
index 198f98f..c442e24 100644
--- a/src/main.c
+++ b/src/main.c
@@ -436,6 +436,14 @@ char** remove_args(int* argc, char** argv,
             i++; // taken as it is
             continue;
         }
+        // the dependency options whose value is the next word
+        if (i + 1 < *argc && (strcmp(argv[i], "-MF") == 0
+            || strcmp(argv[i], "-MT") == 0 || strcmp(argv[i], "-MQ") == 0)) {
+            keep[i] = keep[i + 1] = false;
+            new_argc -= 2;
+            i++;
+            continue;
+        }
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From 8cd393de07fc262950fc532f04500ae92dd2b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 091/150] fix: attribute cleanup without a function name
 crashed the compiler

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index fd0839d..a1341e9 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3869,6 +3869,8 @@ redo:
 	    Sym *s;
 
 	    skip('(');
+	    if (tok < TOK_UIDENT)
+	        expect("identifier");
 	    s = sym_find(tok);
 	    if (!s) {
 	        tcc_warning_c(warn_implicit_function_declaration)(
-- 
2.43.0


From 92916776e45a3d2748b3b0186c45baa4e3cf81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 092/150] fix: member access at the end of the file crashed the
 compiler

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a1341e9..2613dbb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4056,6 +4056,8 @@ static Sym * find_field (CType *type, int v, int *cumofs)
 {
     Sym *s = type->ref;
     int v1 = v | SYM_FIELD;
+    if (v < 0) /* TOK_EOF */
+        expect("field name");
     if (!(v & SYM_FIELD)) { /* top-level call */
         if ((type->t & VT_BTYPE) != VT_STRUCT)
             expect("struct or union");
-- 
2.43.0


From 4e8be6e01fc08f48a821fa1d4c9869b3540bc602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 093/150] fix: narrow string literal behind a wide one was
 copied as wide characters

---
 lib/tinycc/tccgen.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 2613dbb..8a6b27e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7850,6 +7850,20 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
     }
 }
 
+/* append a narrow (UTF-8) string to a wide one */
+static void cstr_widen(CString *cstr, const char *str, int size)
+{
+    while (size > 0) {
+        int c = (unsigned char)*str++;
+        int cont = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0;
+        if (cont)
+            c &= 0x3f >> cont;
+        while (--size > 1 && cont-- > 0 && (*str & 0xc0) == 0x80)
+            c = (c << 6) | (*str++ & 0x3f);
+        cstr_wccat(cstr, c);
+    }
+}
+
 /* 't' contains the type and storage info. 'c' is the offset of the
    object in section 'sec'. If 'sec' is NULL, it means stack based
    allocation. 'flags & DIF_FIRST' is true if array '{' must be read (multi
@@ -7916,12 +7930,18 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             while (tok == TOK_STR || tok == TOK_LSTR) {
                 if (initstr.size)
                   initstr.size -= size1;
-                if (tok == TOK_STR)
-                  len += tokc.str.size;
-                else
-                  len += tokc.str.size / sizeof(nwchar_t);
-                len--;
-                cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                if (tok == TOK_STR && size1 > 1) {
+                  /* L"..." "...": the narrow one becomes wide */
+                  cstr_widen(&initstr, tokc.str.data, tokc.str.size);
+                  len = initstr.size / size1 - 1;
+                } else {
+                  if (tok == TOK_STR)
+                    len += tokc.str.size;
+                  else
+                    len += tokc.str.size / sizeof(nwchar_t);
+                  len--;
+                  cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                }
                 next();
             }
             if (tok != ')' && tok != '}' && tok != ',' && tok != ';'
-- 
2.43.0


From 7d0028c3ccdfc5a6e7f5c3ef4d40d22d9e42ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 094/150] fix: index in .rept and operand numbers in asm
 overflowed

---
 lib/tinycc/tccasm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index e52872b..8a6096b 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -666,7 +666,7 @@ static void asm_parse_directive(TCCState *s1, int global)
             }
             tok_str_add(init_str, TOK_EOF);
             begin_macro(init_str, 1);
-            while (repeat-- > 0) {
+            for (; repeat > 0; repeat--) {
                 tcc_assemble_internal(s1, (parse_flags & PARSE_FLAG_PREPROCESS),
 				      global);
                 macro_ptr = init_str->str;
@@ -1079,7 +1079,8 @@ ST_FUNC int find_constraint(ASMOperand *operands, int nb_operands,
     if (isnum(*name)) {
         index = 0;
         while (isnum(*name)) {
-            index = (index * 10) + (*name) - '0';
+            if (index < nb_operands)
+                index = (index * 10) + (*name) - '0';
             name++;
         }
         if ((unsigned)index >= nb_operands)
-- 
2.43.0


From 495389b2c866fdc03f41d8cdaff4bf26912321bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 095/150] fix: hex escapes of more than eight digits overflowed

---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 8d06bd4..1b60081 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2053,7 +2053,7 @@ static void parse_escape_string(CString *outstr, const uint8_t *buf, int is_long
                         expect("more hex digits in universal-character-name");
                     else
                         goto add_hex_or_ucn;
-                    n = n * 16 + c;
+                    n = (unsigned)n * 16 + c;
                     p++;
                 } while (--i);
 		if (is_long) {
-- 
2.43.0


From c423685554012619d551ad901f20176cb05229b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 096/150] fix: overflow in pc-relative addends of assembler
 expressions

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 7334479..0981def 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -277,8 +277,8 @@ ST_FUNC void gen_addr64(int r, Sym *sym, int64_t c)
 ST_FUNC void gen_addrpc32(int r, Sym *sym, int c)
 {
     if (r & VT_SYM)
-        greloca(cur_text_section, sym, ind, R_X86_64_PC32, c-4), c=4;
-    gen_le32(c-4);
+        greloca(cur_text_section, sym, ind, R_X86_64_PC32, c-4LL), c=4;
+    gen_le32(c-4U);
 }
 
 /* output got address with relocation */
-- 
2.43.0


From fa2e4a401d7b3b501f63dcc1361ddeb13c4d8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 097/150] fix: constant behind the largest enumerator
 overflowed

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8a6b27e..ef1de74 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4445,7 +4445,7 @@ do_decl:
                 if (tok != ',')
                     break;
                 next();
-                ll++;
+                ll = (uint64_t)ll + 1;
                 /* NOTE: we accept a trailing comma */
                 if (tok == '}')
                     break;
-- 
2.43.0


From e74e4bc4fd964b4b5d0eea4ad968ff330886896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 098/150] fix: string literal cast to an integer was copied
 instead of its address

---
 lib/tinycc/tccgen.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index ef1de74..9f2bace 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5064,7 +5064,7 @@ static int post_type(CType *type, AttributeDef *ad, int storage, int td)
 check:
             if ((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == VT_CONST) {
                 n = vtop->c.i;
-                if (n < 0)
+                if (n < 0 || n != (int64_t)vtop->c.i)
                     tcc_error("invalid array size");
             } else {
                 if (!is_integer_btype(vtop->type.t & VT_BTYPE))
@@ -7645,7 +7645,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             type = &t1;
         }
         if (p->sec)
-            vpush_ref(type, p->sec, c, elem_size);
+            vpush_ref(type, p->sec, c, elem_size), vtop->r |= VT_LVAL;
         else
 	    vset(type, VT_LOCAL|VT_LVAL, c);
         for (i = 1; i < nb_elems; i++) {
@@ -7682,14 +7682,19 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
     if (sec) {
         /* XXX: not portable */
         /* XXX: generate error if incorrect relocation */
-        gen_assign_cast(&dtype);
         bt = type->t & VT_BTYPE;
+        /* a compound literal is copied as it is */
+        if ((vtop->r & VT_LVAL)
+            && (bt != (vtop->type.t & VT_BTYPE) || (type->t & VT_BITFIELD)))
+            tcc_error("initializer element is not constant");
+        gen_assign_cast(&dtype);
 
         if ((vtop->r & VT_SYM)
             && bt != VT_PTR
             && (bt != (PTR_SIZE == 8 ? VT_LLONG : VT_INT)
                 || (type->t & VT_BITFIELD))
-            && !((vtop->r & VT_CONST) && vtop->sym->v >= SYM_FIRST_ANOM)
+            && !((vtop->r & VT_CONST) && (vtop->r & VT_LVAL)
+                 && vtop->sym->v >= SYM_FIRST_ANOM)
             )
             tcc_error("initializer element is not computable at load time");
 
@@ -7702,7 +7707,7 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
         val = vtop->c.i;
 
         /* XXX: make code faster ? */
-	if ((vtop->r & (VT_SYM|VT_CONST)) == (VT_SYM|VT_CONST) &&
+	if ((vtop->r & (VT_SYM|VT_CONST|VT_LVAL)) == (VT_SYM|VT_CONST|VT_LVAL) &&
 	    vtop->sym->v >= SYM_FIRST_ANOM &&
 	    /* XXX This rejects compound literals like
 	       '(void *){ptr}'.  The problem is that '&sym' is
-- 
2.43.0


From 0e61bbf495575d7e49affa1b817c69ae6e948023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 099/150] fix: sizes of arrays, structures and locals beyond an
 int overflowed silently

---
 lib/tinycc/tccgen.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 9f2bace..8d618c1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4127,12 +4127,14 @@ static void struct_layout(CType *type, AttributeDef *ad)
             bit_size = -1;
         size = type_size(&f->type, &align);
         a = f->a.aligned ? 1 << (f->a.aligned - 1) : 0;
+        if (size > 0x7fffff00 - c)
+            tcc_error("structure is too large");
 
         full64 = 0;
         if (bit_size == 0 && !(f->v & SYM_FIRST_ANOM))
             bit_size = size * 8;
         packed = f->a.packed || ad->a.packed || (pcc && pragma_pack);
-        if (bit_size == size * 8 && (!packed || bit_size == 64)) {
+        if (bit_size >= 0 && bit_size == size * 8 && (!packed || bit_size == 64)) {
             /* no need for bit fields, except that packed ones can start
                at any bit */
             full64 = packed;
@@ -4202,7 +4204,7 @@ static void struct_layout(CType *type, AttributeDef *ad)
                     goto new_field;
                 } else if (!packed) {
                     int a8 = align * 8;
-	            int ofs = ((c * 8 + bit_pos) % a8 + bit_size + a8 - 1) / a8;
+	            int ofs = ((c * 8LL + bit_pos) % a8 + bit_size + a8 - 1) / a8;
                     if (ofs > size / align)
                         goto new_field;
                 }
@@ -5085,6 +5087,10 @@ check:
 
         t1 |= type->t & VT_VLA;
 
+        /* sizes are kept in an int */
+        if (!(t1 & VT_VLA) && n > 0 && type_size(type, &align) > 0x7fffffff / n)
+            tcc_error("array is too large");
+
         if (t1 & VT_VLA) {
             if (n < 0) {
 		if  (td & TYPE_NEST)
@@ -7490,8 +7496,12 @@ static void decl_design_delrels(Section *sec, int c, int size)
 static void decl_design_flex(init_params *p, Sym *ref, int index)
 {
     if (ref == p->flex_array_ref) {
-        if (index >= ref->c)
+        if (index >= ref->c) {
+            int align, size = type_size(&ref->type, &align);
+            if (size > 0 && index >= 0x7fffffff / size)
+                tcc_error("array is too large");
             ref->c = index + 1;
+        }
     } else if (ref->c < 0)
         tcc_error("flexible array has zero size in this context");
 }
@@ -8225,6 +8235,8 @@ static void decl_initializer_alloc(CType *type, AttributeDef *ad, int r,
             loc -= align;
         }
 #endif
+        if (size > 0x7ffff000 + loc - align)
+            tcc_error("local variables are too large");
         loc = (loc - size) & -align;
         addr = loc;
         p.local_offset = addr + size;
-- 
2.43.0


From 3703370909de90e67b43e3b0821484cf5017c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 100/150] fix: line numbers beyond an int in #line overflowed

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 1b60081..c8205b1 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1944,6 +1944,8 @@ ST_FUNC void preprocess(int is_bof)
     case TOK_PPNUM:
         parse_number(tokc.str.data);
         n = tokc.i;
+        if (n < 0)
+            tcc_error("line number out of range");
         parse_flags &= ~PARSE_FLAG_TOK_STR;
         next();
         if (tok != TOK_LINEFEED) {
-- 
2.43.0


From 75faff16295fd76f2dc35804949311078bdf5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 101/150] fix: numbers where assembler directives expect a
 symbol crashed the compiler

---
 lib/tinycc/tccasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 8a6096b..44e7f22 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -104,6 +104,8 @@ ST_FUNC Sym* get_asm_sym(int name, Sym *csym)
 {
     Sym *sym = asm_label_find(name);
     if (!sym) {
+	if (name < TOK_IDENT)
+	  expect("symbol name");
 	sym = asm_label_push(name);
 	if (csym)
 	  sym->c = csym->c;
-- 
2.43.0


From b230828a1d88a20fca584b30d809421fe052af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 102/150] fix: naming a number in diagnostics of directives and
 of __mode__ crashed the compiler

---
 lib/tinycc/tccasm.c | 16 ++++++++--------
 lib/tinycc/tccgen.c |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 44e7f22..6118a60 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -801,7 +801,7 @@ static void asm_parse_directive(TCCState *s1, int global)
             if (tok == TOK_STR)
                 pstrcat(ident, sizeof(ident), tokc.str.data);
             else
-                pstrcat(ident, sizeof(ident), get_tok_str(tok, NULL));
+                pstrcat(ident, sizeof(ident), get_tok_str(tok, &tokc));
             tcc_warning_c(warn_unsupported)("ignoring .ident %s", ident);
             next();
         }
@@ -813,10 +813,10 @@ static void asm_parse_directive(TCCState *s1, int global)
             next();
             sym = asm_label_find(tok);
             if (!sym) {
-                tcc_error("label not found: %s", get_tok_str(tok, NULL));
+                tcc_error("label not found: %s", get_tok_str(tok, &tokc));
             }
             /* XXX .size name,label2-label1 */
-            tcc_warning_c(warn_unsupported)("ignoring .size %s,*", get_tok_str(tok, NULL));
+            tcc_warning_c(warn_unsupported)("ignoring .size %s,*", get_tok_str(tok, &tokc));
             next();
             skip(',');
             while (tok != TOK_LINEFEED && tok != ';' && tok != CH_EOF) {
@@ -838,7 +838,7 @@ static void asm_parse_directive(TCCState *s1, int global)
             } else {
                 if (tok == '@' || tok == '%')
                     next();
-                newtype = get_tok_str(tok, NULL);
+                newtype = get_tok_str(tok, &tokc);
             }
 
             if (!strcmp(newtype, "function") || !strcmp(newtype, "STT_FUNC")) {
@@ -868,7 +868,7 @@ static void asm_parse_directive(TCCState *s1, int global)
                 if (tok == TOK_STR)
                     pstrcat(sname, sizeof(sname), tokc.str.data);
                 else
-                    pstrcat(sname, sizeof(sname), get_tok_str(tok, NULL));
+                    pstrcat(sname, sizeof(sname), get_tok_str(tok, &tokc));
                 next();
             }
             if (tok == ',') {
@@ -952,16 +952,16 @@ static void asm_parse_directive(TCCState *s1, int global)
                 break;
             case TOK_ASM_arch:
                 /* TODO: unimplemented, requires extra parsing */
-                tcc_error("unimp .option '.%s'", get_tok_str(tok, NULL));
+                tcc_error("unimp .option '.%s'", get_tok_str(tok, &tokc));
                 break;
             default:
-                tcc_error("unknown .option '.%s'", get_tok_str(tok, NULL));
+                tcc_error("unknown .option '.%s'", get_tok_str(tok, &tokc));
                 break;
         }
         break;
 #endif
     default:
-        tcc_error("unknown assembler directive '.%s'", get_tok_str(tok, NULL));
+        tcc_error("unknown assembler directive '.%s'", get_tok_str(tok, &tokc));
         break;
     }
 }
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8d618c1..4890c0b 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4013,7 +4013,7 @@ redo:
                     ad->attr_mode = VT_INT + 1;
                     break;
                 default:
-                    tcc_warning("__mode__(%s) not supported\n", get_tok_str(tok, NULL));
+                    tcc_warning("__mode__(%s) not supported\n", get_tok_str(tok, &tokc));
                     break;
             }
             next();
-- 
2.43.0


From ae9a1b261a3a59c697fe709704a589ad2c220f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 103/150] fix: archive name that is a directory or a pipe read
 with a wrong size

---
 src/file.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 89e82cb..e113379 100644
--- a/src/file.c
+++ b/src/file.c
@@ -28,6 +28,7 @@
 #include <time.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include <inttypes.h>
 
 #include <ftw.h> // _GNU_SOURCE
@@ -46,7 +47,13 @@ static long file_size(const char *filename) {
 }
 
 char* file_load(const char *filename, unsigned int *len) {
-    size_t length = file_size(filename);
+    struct stat st;
+    // a pipe or a directory has no size to rely on
+    if (stat(filename, &st) == 0 && !S_ISREG(st.st_mode)) {
+        _err("Not a regular file: %s", filename);
+        return NULL;
+    }
+    long length = file_size(filename);
     if (length < 1) {
         return NULL;
     }
@@ -66,7 +73,7 @@ char* file_load(const char *filename, unsigned int *len) {
 
     // _err("Loading source file %s",filename);
 
-    if(fread(contents, 1, length, file)<length) {
+    if(fread(contents, 1, length, file)<(size_t)length) {
 		fail(filename);
 		free(contents);
 		fclose(file);
-- 
2.43.0


From ed0d66f6617bc8875a9599122e57900d46081640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 104/150] fix: options from a list file were freed twice

---
 lib/tinycc/libtcc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 637d973..8fc42c1 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -2198,10 +2198,12 @@ unsupported_option:
 
 LIBTCCAPI int tcc_set_options(TCCState *s, const char *r)
 {
-    char **argv = NULL;
-    int argc = 0, ret;
+    char **argv = NULL, **argv1;
+    int argc = 0, argc1, ret;
     args_parser_make_argv(r, &argc, &argv);
-    ret = tcc_parse_args(s, &argc, &argv, 0);
+    /* what a list file makes of them belongs to the state */
+    argv1 = argv, argc1 = argc;
+    ret = tcc_parse_args(s, &argc1, &argv1, 0);
     dynarray_reset(&argv, &argc);
     return ret < 0 ? ret : 0;
 }
-- 
2.43.0


From 37553584acf2dcc5c2158ec4072a686a7fa723ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 105/150] fix: machine modes given after a declarator were
 ignored, and the word mode was 32 bits

---
 lib/tinycc/tccgen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4890c0b..4944bd1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4009,9 +4009,11 @@ redo:
                     ad->attr_mode = VT_SHORT + 1;
                     break;
                 case TOK_MODE_SI:
-                case TOK_MODE_word:
                     ad->attr_mode = VT_INT + 1;
                     break;
+                case TOK_MODE_word:
+                    ad->attr_mode = (PTR_SIZE == 8 ? VT_LLONG : VT_INT) + 1;
+                    break;
                 default:
                     tcc_warning("__mode__(%s) not supported\n", get_tok_str(tok, &tokc));
                     break;
@@ -5139,7 +5141,7 @@ check:
 static CType *type_decl(CType *type, AttributeDef *ad, int *v, int td)
 {
     CType *post, *ret;
-    int qualifiers, storage;
+    int qualifiers, storage, bt;
 
     /* recursive type, remove storage bits first, apply them later again */
     storage = type->t & VT_STORAGE;
@@ -5208,6 +5210,10 @@ static CType *type_decl(CType *type, AttributeDef *ad, int *v, int td)
               (td & ~(TYPE_DIRECT|TYPE_ABSTRACT|TYPE_POINTED))
               | (post != type ? TYPE_POINTED : 0));
     parse_attribute(ad);
+    bt = type->t & VT_BTYPE;
+    if (ad->attr_mode && (bt == VT_BYTE || bt == VT_SHORT
+                          || bt == VT_INT || bt == VT_LLONG))
+        type->t = (type->t & ~(VT_BTYPE|VT_LONG)) | (ad->attr_mode - 1);
     type->t |= storage;
     return ret;
 }
-- 
2.43.0


From ecb63caa8648a823d375d055f2a938b9ccd6a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 106/150] fix: naming a number in an asm directive under
 -fleading-underscore crashed the compiler

---
 lib/tinycc/tccasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 6118a60..4360a6a 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -51,7 +51,7 @@ static int asm2cname(int v, int *addeddot)
 {
     const char *name;
     *addeddot = 0;
-    if (!tcc_state->leading_underscore)
+    if (!tcc_state->leading_underscore || v < TOK_IDENT)
       return v;
     name = get_tok_str(v, NULL);
     if (!name)
-- 
2.43.0


From a90723c9978b1dac4c4e397dc6a894b5f0731894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 107/150] fix: signed or unsigned was accepted with types that
 have no signedness

---
 lib/tinycc/tccgen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4944bd1..e679671 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4620,13 +4620,14 @@ static void parse_btype_qualify(CType *type, int qualifiers)
  */
 static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
 {
-    int t, u, bt, st, type_found, typespec_found, g, n;
+    int t, u, bt, st, type_found, typespec_found, sign_found, g, n;
     Sym *s;
     CType type1;
 
     memset(ad, 0, sizeof(AttributeDef));
     type_found = 0;
     typespec_found = 0;
+    sign_found = 0;
     t = VT_INT;
     bt = st = -1;
     type->ref = NULL;
@@ -4773,7 +4774,7 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
                 tcc_error("signed and unsigned modifier");
             t |= VT_DEFSIGN;
             next();
-            typespec_found = 1;
+            typespec_found = sign_found = 1;
             break;
         case TOK_REGISTER:
         case TOK_AUTO:
@@ -4787,7 +4788,7 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
                 tcc_error("signed and unsigned modifier");
             t |= VT_DEFSIGN | VT_UNSIGNED;
             next();
-            typespec_found = 1;
+            typespec_found = sign_found = 1;
             break;
 
             /* storage */
@@ -4868,6 +4869,9 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
         type_found = 1;
     }
 the_end:
+    if (sign_found && (bt == -2 || bt == VT_VOID || bt == VT_BOOL
+                       || bt == VT_STRUCT || is_float(t)))
+        goto tmbt;
     if (tcc_state->char_is_unsigned) {
         if ((t & (VT_DEFSIGN|VT_BTYPE)) == VT_BYTE)
             t |= VT_UNSIGNED;
-- 
2.43.0


From c5b4df79d4b3f6cdc6c571c5d4407fe5fe4e2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 108/150] fix: #else and #elif without #if in a header were
 taken as part of a conditional of the including file

---
 lib/tinycc/tccpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index c8205b1..9ecc363 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1888,14 +1888,14 @@ ST_FUNC void preprocess(int is_bof)
         goto test_skip;
     case TOK_ELSE:
         next_nomacro();
-        if (s1->ifdef_stack_ptr == s1->ifdef_stack)
+        if (s1->ifdef_stack_ptr <= file->ifdef_stack_ptr)
             tcc_error("#else without matching #if");
         if (s1->ifdef_stack_ptr[-1] & 2)
             tcc_error("#else after #else");
         c = (s1->ifdef_stack_ptr[-1] ^= 3);
         goto test_else;
     case TOK_ELIF:
-        if (s1->ifdef_stack_ptr == s1->ifdef_stack)
+        if (s1->ifdef_stack_ptr <= file->ifdef_stack_ptr)
             tcc_error("#elif without matching #if");
         c = s1->ifdef_stack_ptr[-1];
         if (c > 1)
-- 
2.43.0


From 2793b0613c2c67c7ee344d974766d1913d7d5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 109/150] fix: atomic operations on objects of floating or
 structure type passed values in the wrong registers

---
 lib/tinycc/tccgen.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index e679671..bf18ac5 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5364,7 +5364,7 @@ static void parse_builtin_params(int nc, const char *args)
 static void parse_atomic(int atok)
 {
     int size, align, arg, t, save = 0;
-    CType *atom, *atom_ptr, ct = {0};
+    CType *atom, *atom_ptr, ct = {0}, it = {0};
     SValue store;
     char buf[40];
     static const char *const templates[] = {
@@ -5423,6 +5423,13 @@ static void parse_atomic(int atok)
                     && (0 == btype_size(atom->t & VT_BTYPE)
                         || (atom->t & VT_BTYPE) == VT_PTR)))
                 expect("integral or integer-sized pointer target type");
+            /* the helper functions know integers only */
+            it = *atom;
+            if (is_float(atom->t) || (atom->t & VT_BTYPE) == VT_STRUCT) {
+                it.t = VT_UNSIGNED | (size == 1 ? VT_BYTE : size == 2 ? VT_SHORT
+                                      : size == 4 ? VT_INT : VT_LLONG);
+                it.ref = NULL;
+            }
             /* GCC does not care either: */
             /* if (!(atom->t & VT_ATOMIC))
                 tcc_warning("pointer target declaration is missing '_Atomic'"); */
@@ -5439,11 +5446,18 @@ static void parse_atomic(int atok)
             break;
         case 'l':
             indir();
-            gen_assign_cast(atom);
+            if (it.t == atom->t) {
+                gen_assign_cast(atom);
+                break;
+            }
+            verify_assign_cast(atom);
+            vtop->type = it;
             break;
         case 's':
             save = 1;
             indir();
+            if (it.t != atom->t)
+                vtop->type = it;
             store = *vtop;
             vpop();
             break;
@@ -5467,7 +5481,7 @@ static void parse_atomic(int atok)
         ct.t = VT_BOOL;
         break;
     case 'v':
-        ct = *atom;
+        ct = it;
         break;
     }
 
-- 
2.43.0


From a4e44e9c01d95e562788b6f152bf0c62edd76f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 110/150] fix: a successful compare_exchange must not write the
 expected object

---
 lib/tinycc/lib/stdatomic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/lib/stdatomic.c b/lib/tinycc/lib/stdatomic.c
index 732657a..744df50 100644
--- a/lib/tinycc/lib/stdatomic.c
+++ b/lib/tinycc/lib/stdatomic.c
@@ -32,8 +32,10 @@ void __atomic_thread_fence(int memorder);
             : "q" (xchg), "0" (cmp) \
             : "memory" \
         ); \
+        if (rv == cmp) \
+            return true; \
         *(TYPE *)ref = rv; \
-        return (rv == cmp); \
+        return false; \
     }
 #else
 #define ATOMIC_COMPARE_EXCHANGE(TYPE, MODE, SUFFIX) \
-- 
2.43.0


From fd0aa00a408f552f3f60965156b5dd00ca517a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 111/150] fix: the stdatomic.h macros captured user variables
 named ptr, tmp and val

---
 lib/tinycc/include/stdatomic.h | 56 +++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/lib/tinycc/include/stdatomic.h b/lib/tinycc/include/stdatomic.h
index 2d423d1..b746324 100644
--- a/lib/tinycc/include/stdatomic.h
+++ b/lib/tinycc/include/stdatomic.h
@@ -91,51 +91,51 @@ typedef struct {
     atomic_flag_clear_explicit(object, __ATOMIC_SEQ_CST)
 
 /* Generic routines */
-#define atomic_init(object, desired)                                      \
+#define atomic_init(object, desired)                                          \
     atomic_store_explicit(object, desired, __ATOMIC_RELAXED)
 
-#define atomic_store_explicit(object, desired, order)                     \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = (desired);                                 \
-       __atomic_store (ptr, &tmp, (order));                               \
+#define atomic_store_explicit(object, desired, order)                         \
+    ({ __typeof__ (object) __atomic_ptr = (object);                           \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = (desired);                   \
+       __atomic_store (__atomic_ptr, &__atomic_tmp, (order));                 \
     })
-#define atomic_store(object, desired)                                     \
+#define atomic_store(object, desired)                                         \
      atomic_store_explicit (object, desired, __ATOMIC_SEQ_CST)
 
-#define atomic_load_explicit(object, order)                               \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_load (ptr, &tmp, (order));                                \
-       tmp;                                                               \
+#define atomic_load_explicit(object, order)                                   \
+    ({ __typeof__ (object) __atomic_ptr = (object);                           \
+       __typeof__ (*__atomic_ptr) __atomic_tmp;                               \
+       __atomic_load (__atomic_ptr, &__atomic_tmp, (order));                  \
+       __atomic_tmp;                                                          \
     })
 #define atomic_load(object) atomic_load_explicit (object, __ATOMIC_SEQ_CST)
 
-#define atomic_exchange_explicit(object, desired, order)                  \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) val = (desired);                                 \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_exchange (ptr, &val, &tmp, (order));                      \
-       tmp;                                                               \
+#define atomic_exchange_explicit(object, desired, order)                      \
+    ({ __typeof__ (object) __atomic_ptr = (object);                           \
+       __typeof__ (*__atomic_ptr) __atomic_val = (desired);                   \
+       __typeof__ (*__atomic_ptr) __atomic_tmp;                               \
+       __atomic_exchange (__atomic_ptr, &__atomic_val, &__atomic_tmp, (order)); \
+       __atomic_tmp;                                                          \
     })
-#define atomic_exchange(object, desired)                                  \
+#define atomic_exchange(object, desired)                                      \
   atomic_exchange_explicit (object, desired, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_strong_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 0, success, failure); \
+    ({ __typeof__ (object) __atomic_ptr = (object);                           \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = desired;                     \
+       __atomic_compare_exchange(__atomic_ptr, expected, &__atomic_tmp, 0, success, failure); \
     })
-#define atomic_compare_exchange_strong(object, expected, desired)         \
-    atomic_compare_exchange_strong_explicit (object, expected, desired,   \
+#define atomic_compare_exchange_strong(object, expected, desired)             \
+    atomic_compare_exchange_strong_explicit (object, expected, desired,       \
                                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_weak_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 1, success, failure); \
+    ({ __typeof__ (object) __atomic_ptr = (object);                           \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = desired;                     \
+       __atomic_compare_exchange(__atomic_ptr, expected, &__atomic_tmp, 1, success, failure); \
     })
-#define atomic_compare_exchange_weak(object, expected, desired)           \
-    atomic_compare_exchange_weak_explicit (object, expected, desired,     \
+#define atomic_compare_exchange_weak(object, expected, desired)               \
+    atomic_compare_exchange_weak_explicit (object, expected, desired,         \
                                            __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
 
 #define atomic_fetch_add(object, operand) \
-- 
2.43.0


From f1ffafec7d69fee2ddeb591bcbe812a61f88e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 112/150] fix: the result pointer of __atomic_load and
 __atomic_exchange was kept in a register across the call

---
 lib/tinycc/tccgen.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index bf18ac5..a59225e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5365,7 +5365,6 @@ static void parse_atomic(int atok)
 {
     int size, align, arg, t, save = 0;
     CType *atom, *atom_ptr, ct = {0}, it = {0};
-    SValue store;
     char buf[40];
     static const char *const templates[] = {
         /*
@@ -5458,8 +5457,8 @@ static void parse_atomic(int atok)
             indir();
             if (it.t != atom->t)
                 vtop->type = it;
-            store = *vtop;
-            vpop();
+            /* stays below the arguments: its address may be in a register */
+            vrott(arg + 1);
             break;
         case 'm':
             gen_assign_cast(&int_type);
@@ -5501,12 +5500,8 @@ static void parse_atomic(int atok)
 #endif
     }
     gen_cast(&ct);
-    if (save) {
-        vpush(&ct);
-        *vtop = store;
-        vswap();
+    if (save)
         vstore();
-    }
 }
 
 ST_FUNC void unary(void)
-- 
2.43.0


From e398a00b80c7c4778cf07fd2f68c2847e81f0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 113/150] fix: libraries found by the search are binary files
 whatever their name ends with

---
 src/cjit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 92f49cf..23dc518 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -567,12 +567,15 @@ int cjit_link(CJITState *cjit) {
 	}
 	// resolve library files on UNIX systems
 	int found = resolve_libs(cjit);
+	// these are binary files whatever their names end with
+	tcc_set_options(tcc(cjit),"-xbinary");
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
 			tcc_add_file(tcc(cjit), f);
 		}
 	}
+	tcc_set_options(tcc(cjit),"-xnone");
 	debug(" -o %s",cjit->output_filename);
 	return( tcc_output_file(tcc(cjit),cjit->output_filename));
 }
@@ -600,6 +603,8 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	debug("resolve paths to library files (%i)",
 		  XArray_Used(cjit->libs));
 	int found = resolve_libs(cjit);
+	// these are binary files whatever their names end with
+	tcc_set_options(tcc(cjit),"-xbinary");
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
@@ -607,6 +612,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 			tcc_add_file(tcc(cjit), f);
 		}
 	}
+	tcc_set_options(tcc(cjit),"-xnone");
 	int res = 1;
 	int (*_ep)(int, char**, char**);
 	// relocate the code (link symbols)
-- 
2.43.0


From 1ab7d4bd9147ca4d6e6fc3977c7e67bfe008a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 114/150] fix: blanks, comments and links in the configuration
 of library directories

---
 src/elflinker.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index abbecdb..236fe0d 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -61,14 +61,17 @@ bool read_ldsoconf(xarray_t *dest, char *path) {
 	}
 	// TODO: optimize by allocating the buffer inside a xarray data
 	// struct to avoid double memcpy
-	char line[MAX_PATH];
-	while (fgets(line, MAX_PATH, file) != NULL) {
+	char line[PATH_MAX];
+	while (fgets(line, PATH_MAX, file) != NULL) {
+		// blanks around the path and comments are not part of it
+		char *dir = line + strspn(line," \t");
+		size_t len = strcspn(dir,"#\n");
+		while(len && (dir[len-1]==' ' || dir[len-1]=='\t' || dir[len-1]=='\r')) len--;
+		dir[len]=0x0;
 		// Skip lines that aren't paths
-		if (line[0] != '/') continue;
-		size_t len = strlen(line);
-		if(line[len-1]=='\n') line[len-1]=0x0;
+		if (dir[0] != '/') continue;
 		// add the line to the result array
-		XArray_AddData(dest,line,len+1);
+		XArray_AddData(dest,dir,len+1);
 	}
 	fclose(file);
     return true;
@@ -87,15 +90,13 @@ bool read_ldsoconf_dir(xarray_t *dest, const char *directory) {
     }
     // go through sorted filenames
     for (int i = 0; i < n; i++) {
-        if (namelist[i]->d_type == DT_REG) {
-			// Regular files only
-			//  || namelist[i]->d_type == DT_LNK
-			cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
-			if(! read_ldsoconf(dest,path) ) {
+		struct stat st;
+		cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
+		// Regular files and links to them only
+		if (stat(path,&st) == 0 && S_ISREG(st.st_mode)) {
+			if(! read_ldsoconf(dest,path) )
 				fail(directory);
-				continue;
-			}
-        }
+		}
         free(namelist[i]);
     }
     free(namelist);
-- 
2.43.0


From ba880ab8758bcf668da81922139e3a2a69b4f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 115/150] fix: a linker script may name other linker scripts

---
 src/elflinker.c | 35 +++++++++++++++++++++++++----------
 src/elflinker.h |  1 +
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 236fe0d..bccd3bb 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -52,6 +52,8 @@ extern char *pstrcpy(char *buf, size_t buf_size, const char *s);
 // implemented further down
 static int resolve_ldscript(LDState *s1, char *path);
 static int find_library(CJITState *cjit, const char *path);
+static int add_library(xarray_t *libs, xarray_t *libpaths, char *reallib, int depth);
+#define LD_SCRIPT_DEPTH 32
 
 bool read_ldsoconf(xarray_t *dest, char *path) {
 	FILE *file = fopen(path, "r");
@@ -160,11 +162,15 @@ static char *new_solve_symlink(const char *path) {
 static int find_library(CJITState *cjit, const char *path) {
 	char *reallib = new_solve_symlink(path);
 	if(!reallib) return -1;
+	int res = add_library(cjit->reallibs, cjit->libpaths, reallib, 0);
+	free(reallib);
+	return res;
+}
+
+// add a library file to the list, or those that it names if it is a script
+static int add_library(xarray_t *libs, xarray_t *libpaths, char *reallib, int depth) {
 	FILE *fd = fopen(reallib,"r");
-	if(!fd) {
-		free(reallib);
-		return -2;
-	}
+	if(!fd) return -2;
 	int ch;
 	int i = 0;
 	char elf[4];
@@ -182,6 +188,12 @@ static int find_library(CJITState *cjit, const char *path) {
 			break;
 		}
 
+		// archives start as text
+		if(i==4 && !memcmp(elf,"!<ar",4)) {
+			is_ldscript = false;
+			break;
+		}
+
 		// check for ASCII
 		if (ch < 0 || ch > 127) {
 			is_ldscript = false;
@@ -196,14 +208,14 @@ static int find_library(CJITState *cjit, const char *path) {
 		LDState s1;
 		int rr;
 		memset(&s1,0x0,sizeof(s1));
-		s1.libs = cjit->reallibs;
-		s1.libpaths = cjit->libpaths;
-		rr = resolve_ldscript(&s1, reallib);
+		s1.libs = libs;
+		s1.libpaths = libpaths;
+		s1.depth = depth;
+		rr = depth < LD_SCRIPT_DEPTH ? resolve_ldscript(&s1, reallib) : -1;
 		if(rr!=0)_err("Library not found: %s",reallib);
 	} else {
-		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
+		XArray_AddData(libs,reallib,strlen(reallib));
 	}
-	free(reallib);
 	return 0;
 }
 
@@ -374,7 +386,10 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			return 1;
 		}
 	}
-	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
+	if(add_library(s1->libs, s1->libpaths, tryfile, s1->depth+1) != 0) {
+		fail(tryfile);
+		return 1;
+	}
 	return 0;
 }
 
diff --git a/src/elflinker.h b/src/elflinker.h
index 6492cf2..0f25137 100644
--- a/src/elflinker.h
+++ b/src/elflinker.h
@@ -8,6 +8,7 @@ struct LDState {
 	int fd;
 	int new_undef_sym;
 	int static_link;
+	int depth; // of scripts naming scripts
 	xarray_t *libs;
 	xarray_t *libpaths;
 };
-- 
2.43.0


From 6f6b1be48113aaf19098ba87d38f1364503b320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 116/150] fix: an error in a floating point call without SSE
 left memory behind

---
 lib/tinycc/x86_64-gen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 0981def..c1136a9 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1284,8 +1284,10 @@ void gfunc_call(int nb_args)
 	}
     }
 
-    if (nb_sse_args && tcc_state->nosse)
+    if (nb_sse_args && tcc_state->nosse) {
+      tcc_free(onstack);
       tcc_error("SSE disabled but floating point arguments passed");
+    }
 
     /* fetch cpu flag before generating any code */
     if ((vtop->r & VT_VALMASK) == VT_CMP)
-- 
2.43.0


From 6fc0aeca48fe6562062fd2a720333ee5fb15bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 117/150] fix: an error in an initializer made compound
 literals static in the next compilation

---
 lib/tinycc/tccgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a59225e..c1b4945 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -425,6 +425,7 @@ ST_FUNC void tccgen_finish(TCCState *s1)
     all_cleanups = NULL;
     pending_gotos = NULL;
     nb_temp_local_vars = 0;
+    global_expr = 0;
     global_label_stack = NULL;
     local_label_stack = NULL;
     cur_text_section = NULL;
-- 
2.43.0


From d992c6520932569c7b6f8e81920d9e71c7133eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 118/150] fix: the debug information of a second compilation
 began at a stale address

---
 lib/tinycc/tccdbg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 7760f4f..ff7f753 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -807,10 +807,10 @@ ST_FUNC void tcc_debug_start(TCCState *s1)
             dwarf_line_strp(dwarf_info_section, buf);
             dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
 #if PTR_SIZE == 4
-            dwarf_data4(dwarf_info_section, ind); // low pc
+            dwarf_data4(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data4(dwarf_info_section, 0); // high pc
 #else
-            dwarf_data8(dwarf_info_section, ind); // low pc
+            dwarf_data8(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data8(dwarf_info_section, 0); // high pc
 #endif
             dwarf_reloc(dwarf_info_section, dwarf_sym.line, R_DATA_32DW);
-- 
2.43.0


From b62ee2cf2b1ebc8a585a8ef7c31bc78f31170ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 119/150] fix: an error in #if was repeated by later errors of
 other compiler states

---
 lib/tinycc/tccpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 9ecc363..f30778d 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3690,6 +3690,7 @@ ST_FUNC void preprocess_end(TCCState *s1)
     macro_ptr = NULL;
     while (file)
         tcc_close();
+    pp_expr = 0;
     tccpp_delete(s1);
 }
 
-- 
2.43.0


From dec3562189ac7f5f80878a13d4bae0568c9bc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 120/150] fix: an error in a long initializer or block left its
 saved tokens behind

---
 lib/tinycc/tccpp.c | 48 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index f30778d..4b53dbe 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -166,8 +166,45 @@ typedef struct tal_header_t {
 #endif
 } tal_header_t;
 
+/* objects above the limit: kept in a list, to release what is left after
+   an error */
+typedef struct tal_big_t {
+    struct tal_big_t *prev, *next;
+} tal_big_t;
+
+static tal_big_t *tal_big;
+
 /* ------------------------------------------------------------------------- */
 
+static void tal_big_free(void *p)
+{
+    tal_big_t *b = (tal_big_t *)p - 1;
+    if (b->next)
+        b->next->prev = b->prev;
+    if (b->prev)
+        b->prev->next = b->next;
+    else
+        tal_big = b->next;
+    tcc_free(b);
+}
+
+static void *tal_big_realloc(void *p, unsigned size)
+{
+    tal_big_t *b = p ? (tal_big_t *)p - 1 : NULL;
+    b = tcc_realloc(b, sizeof *b + size);
+    if (!p) {
+        b->prev = NULL;
+        b->next = tal_big;
+    }
+    if (b->next)
+        b->next->prev = b;
+    if (b->prev)
+        b->prev->next = b;
+    else
+        tal_big = b;
+    return b + 1;
+}
+
 static TinyAlloc *tal_new(TinyAlloc **pal, unsigned limit, unsigned size)
 {
     TinyAlloc *al = tcc_mallocz(sizeof(TinyAlloc));
@@ -183,8 +220,11 @@ static void tal_delete(TinyAlloc *al)
     TinyAlloc *next;
 
 tail_call:
-    if (!al)
+    if (!al) {
+        while (tal_big)
+            tal_big_free(tal_big + 1);
         return;
+    }
 #ifdef TAL_INFO
     fprintf(stderr, "limit %4d  size %7d  nb_peak %5d  nb_total %7d  nb_missed %5d  usage %5.1f%%\n",
             al->limit, al->size, al->nb_peak, al->nb_total, al->nb_missed,
@@ -240,7 +280,7 @@ tail_call:
         goto tail_call;
     }
     else
-        tcc_free(p);
+        tal_big_free(p);
 }
 
 static void *tal_realloc_impl(TinyAlloc **pal, void *p, unsigned size TAL_DEBUG_PARAMS)
@@ -305,7 +345,7 @@ tail_call:
     }
     if (is_own) {
         al->nb_allocs--;
-        ret = tcc_malloc(size);
+        ret = tal_big_realloc(NULL, size);
         header = (((tal_header_t *)p) - 1);
         if (p) memcpy(ret, p, header->size);
 #ifdef TAL_DEBUG
@@ -315,7 +355,7 @@ tail_call:
         al = al->next;
         goto tail_call;
     } else
-        ret = tcc_realloc(p, size);
+        ret = tal_big_realloc(p, size);
 #ifdef TAL_INFO
     al->nb_missed++;
 #endif
-- 
2.43.0


From c6b571a1acb2509d9f0e8411e1f8568f8ca83a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 121/150] fix: a macro after the file name in #line made the
 preprocessor loop for ever

---
 lib/tinycc/tccpp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 4b53dbe..7e302d6 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1864,6 +1864,7 @@ ST_FUNC void preprocess(int is_bof)
     int c, n, saved_parse_flags;
     char buf[1024], *q;
     Sym *s;
+    TokenString *saved_macro_stack = macro_stack;
 
     saved_parse_flags = parse_flags;
     parse_flags = PARSE_FLAG_PREPROCESS
@@ -2001,7 +2002,10 @@ ST_FUNC void preprocess(int is_bof)
         if (file->fd > 0)
             total_lines += file->line_num - n;
         file->line_num = n;
-        goto ignore; /* skip optional level number */
+        /* forget the rest of a macro, then skip optional level number */
+        while (macro_stack && macro_stack != saved_macro_stack)
+            end_macro();
+        goto ignore;
 
     case TOK_ERROR:
     case TOK_WARNING:
-- 
2.43.0


From c3869e9042c0da4f2bbe886afa98fad6f78f123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 122/150] fix: -g described assembler labels as variables after
 a C file was compiled before

---
 lib/tinycc/tccasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 4360a6a..817e0e3 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -1031,6 +1031,7 @@ static int tcc_assemble_internal(TCCState *s1, int do_preprocess, int global)
 ST_FUNC int tcc_assemble(TCCState *s1, int do_preprocess)
 {
     int ret;
+    debug_modes = 0; /* labels are no variables: nothing to tell about them */
     tcc_debug_start(s1);
     /* default section is text */
     cur_text_section = text_section;
-- 
2.43.0


From ef5a6be9674c0fbb5c96af628933196003b9d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:51 +0000
Subject: [PATCH 123/150] fix: a goto before a cleanup scope and one out of it
 to the same label broke each other

---
 lib/tinycc/tccgen.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c1b4945..5a6660f 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7331,12 +7331,19 @@ again:
                     tcc_error("duplicate label '%s'", get_tok_str(s->v, NULL));
                 s->r = LABEL_DEFINED;
 		if (s->next) {
-		    Sym *pcl; /* pending cleanup goto */
+		    Sym *pcl, *g, **pg; /* pending cleanup goto */
 		    for (pcl = s->next; pcl; pcl = pcl->prev)
 		      gsym(pcl->jnext);
 		    sym_pop(&s->next, NULL, 0);
-		} else
-		  gsym(s->jnext);
+		    /* done with them: the label may be gone before their scope ends */
+		    for (pg = &pending_gotos; (g = *pg);) {
+			if (g->prev_tok == s)
+			    *pg = g->prev, sym_free(g);
+			else
+			    pg = &g->prev;
+		    }
+		}
+		gsym(s->jnext);
             } else {
                 s = label_push(&global_label_stack, t, LABEL_DEFINED);
             }
-- 
2.43.0


From 19fd76a567b1d1ec7d5330030b074939665c48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 124/150] fix: stabs lines of an assembler file depended on
 what was compiled before

---
 lib/tinycc/tccasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 817e0e3..dcdcfb3 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -1032,6 +1032,7 @@ ST_FUNC int tcc_assemble(TCCState *s1, int do_preprocess)
 {
     int ret;
     debug_modes = 0; /* labels are no variables: nothing to tell about them */
+    func_ind = -1; /* outside of any C function, also after an error in one */
     tcc_debug_start(s1);
     /* default section is text */
     cur_text_section = text_section;
-- 
2.43.0


From 4ae89afec2da5583f02124bc010f51abc12957f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 125/150] fix: two threads could initialise the compiler's
 semaphore at the same time

---
 lib/tinycc/tcc.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index d91c12d..a6cf1c3 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1883,12 +1883,17 @@ typedef struct { int init; CRITICAL_SECTION cr; } TCCSem;
 #include <dispatch/dispatch.h>
 typedef struct { int init; dispatch_semaphore_t sem; } TCCSem;
 #else
-#include <semaphore.h>
-typedef struct { int init; sem_t sem; } TCCSem;
+#include <pthread.h>
+/* ready from the start: several threads may come here first */
+typedef struct { pthread_mutex_t mutex; } TCCSem;
+#define TCC_SEM_INIT = { PTHREAD_MUTEX_INITIALIZER }
+#endif
+#ifndef TCC_SEM_INIT
+#define TCC_SEM_INIT
 #endif
 ST_FUNC void wait_sem(TCCSem *p);
 ST_FUNC void post_sem(TCCSem *p);
-#define TCC_SEM(s) TCCSem s
+#define TCC_SEM(s) TCCSem s TCC_SEM_INIT
 #define WAIT_SEM wait_sem
 #define POST_SEM post_sem
 #else
@@ -1976,13 +1981,11 @@ ST_FUNC void post_sem(TCCSem *p)
 #else
 ST_FUNC void wait_sem(TCCSem *p)
 {
-    if (!p->init)
-        sem_init(&p->sem, 0, 1), p->init = 1;
-    while (sem_wait(&p->sem) < 0 && errno == EINTR);
+    pthread_mutex_lock(&p->mutex);
 }
 ST_FUNC void post_sem(TCCSem *p)
 {
-    sem_post(&p->sem);
+    pthread_mutex_unlock(&p->mutex);
 }
 #endif
 #endif
-- 
2.43.0


From 85abcfa2e6f0e9d20fb2f1f41106133fc30a1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 126/150] fix: errors outside of a compilation could read
 another thread's preprocessor state

---
 lib/tinycc/libtcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 8fc42c1..076f3e6 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -610,7 +610,7 @@ static void error1(int mode, const char *fmt, va_list ap)
         cstr_printf(&cs, "tcc: ");
     }
     cstr_printf(&cs, mode == ERROR_WARN ? "warning: " : "error: ");
-    if (pp_expr > 1)
+    if (s1->error_set_jmp_enabled && pp_expr > 1)
         pp_error(&cs); /* special handler for preprocessor expression errors */
     else
         cstr_vprintf(&cs, fmt, ap);
-- 
2.43.0


From 9affcbdfc8bda449b53f5e5a13965a49caa902ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 127/150] fix: addresses in DWARF sections of objects were lost
 when another linker linked them

---
 lib/tinycc/tccdbg.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index ff7f753..3717b9e 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -531,6 +531,20 @@ static void dwarf_reloc(Section *s, int sym, int rel)
     put_elf_reloca(symtab_section, s, s->data_offset, rel, sym, 0);
 }
 
+/* write an address: the addend belongs into the relocation when it has one
+   (other linkers do not look at the section's data then) */
+static void dwarf_addr(Section *s, int sym, addr_t val)
+{
+    TCCState *s1 = s->s1;
+    put_elf_reloca(symtab_section, s, s->data_offset, R_DATA_PTR, sym,
+                   PTR_SIZE == 4 ? 0 : val);
+#if PTR_SIZE == 4
+    dwarf_data4(s, val);
+#else
+    dwarf_data8(s, 0);
+#endif
+}
+
 static void dwarf_string(Section *s, Section *dw, int sym, const char *str)
 {
     TCCState *s1 = s->s1;
@@ -805,12 +819,10 @@ ST_FUNC void tcc_debug_start(TCCState *s1)
             dwarf_data1(dwarf_info_section, DW_LANG_C11);
             dwarf_line_strp(dwarf_info_section, filename);
             dwarf_line_strp(dwarf_info_section, buf);
-            dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
+            dwarf_addr(dwarf_info_section, section_sym, text_section->data_offset); // low pc
 #if PTR_SIZE == 4
-            dwarf_data4(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data4(dwarf_info_section, 0); // high pc
 #else
-            dwarf_data8(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data8(dwarf_info_section, 0); // high pc
 #endif
             dwarf_reloc(dwarf_info_section, dwarf_sym.line, R_DATA_32DW);
@@ -1736,7 +1748,8 @@ static void tcc_debug_finish (TCCState *s1, struct _debug_info *cur)
                     dwarf_data1(dwarf_info_section, PTR_SIZE + 1);
                     dwarf_data1(dwarf_info_section, DW_OP_addr);
 		    if (s->type == N_STSYM)
-		        dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
+		        dwarf_addr(dwarf_info_section, section_sym, s->value);
+		    else
 #if PTR_SIZE == 4
                     dwarf_data4(dwarf_info_section, s->value);
 #else
@@ -1755,12 +1768,10 @@ static void tcc_debug_finish (TCCState *s1, struct _debug_info *cur)
             dwarf_data1(dwarf_info_section,
 			cur->child ? DWARF_ABBREV_LEXICAL_BLOCK
 			           : DWARF_ABBREV_LEXICAL_EMPTY_BLOCK);
-            dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
+            dwarf_addr(dwarf_info_section, section_sym, func_ind + cur->start);
 #if PTR_SIZE == 4
-            dwarf_data4(dwarf_info_section, func_ind + cur->start);
             dwarf_data4(dwarf_info_section, cur->end - cur->start);
 #else
-            dwarf_data8(dwarf_info_section, func_ind + cur->start);
             dwarf_data8(dwarf_info_section, cur->end - cur->start);
 #endif
             tcc_debug_finish (s1, cur->child);
@@ -1897,12 +1908,10 @@ ST_FUNC void tcc_debug_funcend(TCCState *s1, int size)
         dwarf_uleb128(dwarf_info_section, dwarf_info.line);
 	tcc_debug_check_anon(s1, sym->type.ref, dwarf_info_section->data_offset);
         dwarf_data4(dwarf_info_section, n_debug_info - dwarf_info.start);
-        dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
+        dwarf_addr(dwarf_info_section, section_sym, func_ind); // low_pc
 #if PTR_SIZE == 4
-        dwarf_data4(dwarf_info_section, func_ind); // low_pc
         dwarf_data4(dwarf_info_section, size); // high_pc
 #else
-        dwarf_data8(dwarf_info_section, func_ind); // low_pc
         dwarf_data8(dwarf_info_section, size); // high_pc
 #endif
         func_sib = dwarf_info_section->data_offset;
-- 
2.43.0


From 3b4779d62aee96915a748b141cfe71247eeddd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 128/150] fix: the lines after inline assembler were put into a
 file ':asm:'

---
 lib/tinycc/tccdbg.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 3717b9e..f5290ff 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -583,7 +583,7 @@ static void dwarf_line_op(TCCState *s1, unsigned char op)
     dwarf_line.line_data[dwarf_line.line_size++] = op;
 }
 
-static void dwarf_file(TCCState *s1)
+static void dwarf_file(TCCState *s1, BufferedFile *file)
 {
     int i, j;
     char *filename;
@@ -1052,7 +1052,7 @@ static BufferedFile* put_new_file(TCCState *s1)
     if (f && new_file) {
         new_file = last_line_num = 0;
         if (s1->dwarf)
-            dwarf_file(s1);
+            dwarf_file(s1, f);
         else
             put_stabs_r(s1, f->filename, N_SOL, 0, 0, ind, text_section, section_sym);
     }
@@ -1065,7 +1065,7 @@ ST_FUNC void tcc_debug_newfile(TCCState *s1)
     if (!s1->do_debug)
         return;
     if (s1->dwarf)
-        dwarf_file(s1);
+        dwarf_file(s1, file);
     new_file = 1;
 }
 
@@ -1075,7 +1075,7 @@ ST_FUNC void tcc_debug_bincl(TCCState *s1)
     if (!s1->do_debug)
         return;
     if (s1->dwarf)
-        dwarf_file(s1);
+        dwarf_file(s1, file);
     else
         put_stabs(s1, file->filename, N_BINCL, 0, 0, 0);
     new_file = 1;
@@ -1087,7 +1087,7 @@ ST_FUNC void tcc_debug_eincl(TCCState *s1)
     if (!s1->do_debug)
         return;
     if (s1->dwarf)
-        dwarf_file(s1);
+        dwarf_file(s1, file);
     else
         put_stabn(s1, N_EINCL, 0, 0, 0);
     new_file = 1;
-- 
2.43.0


From a5296e5b3cc7d4b5ce3fcd87d5403afc437e0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 129/150] fix: a fault in the first instruction of a statement
 was reported at the line before

---
 lib/tinycc/tccrun.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccrun.c b/lib/tinycc/tccrun.c
index b0cb4db..b4b7a22 100644
--- a/lib/tinycc/tccrun.c
+++ b/lib/tinycc/tccrun.c
@@ -1107,10 +1107,9 @@ found:
     return (addr_t)func_addr;
 }
 /* ------------------------------------------------------------- */
-#ifndef CONFIG_TCC_BACKTRACE_ONLY
-static
-#endif
-int _tcc_backtrace(rt_frame *f, const char *fmt, va_list ap)
+/* 'exact': the frame's ip is that of an instruction (one that failed),
+   not one to return to */
+static int rt_backtrace(rt_frame *f, int exact, const char *fmt, va_list ap)
 {
     rt_context *rc, *rc2;
     addr_t pc;
@@ -1148,7 +1147,8 @@ int _tcc_backtrace(rt_frame *f, const char *fmt, va_list ap)
             break;
         memset(&bi, 0, sizeof bi);
         for (rc2 = rc; rc2; rc2 = rc2->next) {
-            if (getinfo(rc2, pc, &bi))
+            /* the position of the call is in front of the return address */
+            if (getinfo(rc2, pc + (exact && i == 0), &bi))
                 break;
             /* we try symtab symbols (no line number info) */
             if (!!(a = rt_elfsym(rc2, pc, &bi.func_pc))) {
@@ -1203,13 +1203,21 @@ int _tcc_backtrace(rt_frame *f, const char *fmt, va_list ap)
     return 0;
 }
 
+#ifndef CONFIG_TCC_BACKTRACE_ONLY
+static
+#endif
+int _tcc_backtrace(rt_frame *f, const char *fmt, va_list ap)
+{
+    return rt_backtrace(f, 0, fmt, ap);
+}
+
 /* emit a run time error at position 'pc' */
 static int rt_error(rt_frame *f, const char *fmt, ...)
 {
     va_list ap; char msg[200]; int ret;
     va_start(ap, fmt);
     snprintf(msg, sizeof msg, "RUNTIME ERROR: %s", fmt);
-    ret = _tcc_backtrace(f, msg, ap);
+    ret = rt_backtrace(f, 1, msg, ap);
     va_end(ap);
     return ret;
 }
-- 
2.43.0


From 5d0b60b637f6b7c44dab16e0681b8ca0fffbfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 130/150] fix: DWARF line tables had no row for lines more than
 eight apart

---
 lib/tinycc/tccdbg.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index f5290ff..098b31d 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -1125,13 +1125,8 @@ ST_FUNC void tcc_debug_line(TCCState *s1)
             dwarf_line_op(s1, n);
 	else {
 	    if (len_pc) {
-	        n = len_pc * DWARF_LINE_RANGE + 0 + DWARF_OPCODE_BASE - DWARF_LINE_BASE;
-	        if (n >= DWARF_OPCODE_BASE && n <= 255)
-                    dwarf_line_op(s1, n);
-		else {
-	            dwarf_line_op(s1, DW_LNS_advance_pc);
-		    dwarf_uleb128_op(s1, len_pc);
-		}
+	        dwarf_line_op(s1, DW_LNS_advance_pc);
+		dwarf_uleb128_op(s1, len_pc);
 	    }
 	    if (len_line) {
 	        n = 0 * DWARF_LINE_RANGE + len_line + DWARF_OPCODE_BASE - DWARF_LINE_BASE;
@@ -1141,8 +1136,11 @@ ST_FUNC void tcc_debug_line(TCCState *s1)
 		else {
 	            dwarf_line_op(s1, DW_LNS_advance_line);
 		    dwarf_sleb128_op(s1, len_line);
+		    dwarf_line_op(s1, DW_LNS_copy);
 		}
 	    }
+	    else
+	        dwarf_line_op(s1, DW_LNS_copy);
 	}
 	dwarf_line.last_pc = ind;
 	dwarf_line.last_line = f->line_num;
-- 
2.43.0


From 7a71b6a6ff55aa0d00db928921ed7a006ee38272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 131/150] fix: stabs of objects lost file positions when
 another linker linked them

---
 lib/tinycc/tccdbg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 098b31d..e6f746c 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -495,11 +495,15 @@ static void put_stabs(TCCState *s1, const char *str, int type, int other, int de
 static void put_stabs_r(TCCState *s1, const char *str, int type, int other, int desc,
                         unsigned long value, Section *sec, int sym_index)
 {
-    put_elf_reloc(symtab_section, stab_section,
-                  stab_section->data_offset + 8,
-                  sizeof ((Stab_Sym*)0)->n_value == PTR_SIZE ? R_DATA_PTR : R_DATA_32,
-                  sym_index);
+    unsigned long offset = stab_section->data_offset;
     put_stabs(s1, str, type, other, desc, value);
+    if (stab_section->data_offset == offset)
+        return; /* previous entry updated */
+    if (SHT_RELX == SHT_RELA) /* other linkers do not look at the data */
+        ((Stab_Sym*)(stab_section->data + offset))->n_value = 0;
+    put_elf_reloca(symtab_section, stab_section, offset + 8,
+                  sizeof ((Stab_Sym*)0)->n_value == PTR_SIZE ? R_DATA_PTR : R_DATA_32,
+                  sym_index, SHT_RELX == SHT_RELA ? value : 0);
 }
 
 static void put_stabn(TCCState *s1, int type, int other, int desc, int value)
-- 
2.43.0


From cbed4c85f62063489c2952600dc0b79efcdbd583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 132/150] fix: stack reports with DWARF gave the file of the
 next line

---
 lib/tinycc/tccrun.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccrun.c b/lib/tinycc/tccrun.c
index b4b7a22..b2b7867 100644
--- a/lib/tinycc/tccrun.c
+++ b/lib/tinycc/tccrun.c
@@ -860,10 +860,10 @@ static addr_t rt_printline_dwarf (rt_context *rc, addr_t wanted_pc, bt_info *bi)
     addr_t pc;
     addr_t func_addr;
     int line;
-    char *filename;
+    char *filename, *next_filename;
     char *function;
 
-    filename = NULL;
+    filename = next_filename = NULL;
     function = NULL;
     func_addr = 0;
     line = 0;
@@ -876,7 +876,7 @@ static addr_t rt_printline_dwarf (rt_context *rc, addr_t wanted_pc, bt_info *bi)
         pc = 0;
         func_addr = 0;
         line = 1;
-        filename = NULL;
+        filename = next_filename = NULL;
         function = NULL;
 	length = 4;
 	size = dwarf_read_4(ln, rc->dwarf_line_end);
@@ -985,7 +985,7 @@ static addr_t rt_printline_dwarf (rt_context *rc, addr_t wanted_pc, bt_info *bi)
 	    }
 	}
 	if (filename_size >= 1)
-	    filename = filename_table[0].name;
+	    filename = next_filename = filename_table[0].name;
 	while (ln < end) {
 	    last_pc = pc;
 	    i = dwarf_read_1(ln, end);
@@ -1003,9 +1003,13 @@ check_pc:
 		if (pc >= wanted_pc && wanted_pc >= last_pc)
 		    goto found;
 		line += i;
+		filename = next_filename;
 	    }
 	    else {
 	        switch (i) {
+	        case DW_LNS_copy:
+		    filename = next_filename;
+		    break;
 	        case 0:
 		    len = dwarf_read_uleb128(&ln, end);
 		    cp = ln;
@@ -1067,7 +1071,7 @@ check_pc:
 		    i = dwarf_read_uleb128(&ln, end);
 		    i -= i > 0 && version < 5;
 		    if (i < FILE_TABLE_SIZE && i < filename_size)
-		        filename = filename_table[i].name;
+		        next_filename = filename_table[i].name; /* for the next row */
 		    break;
 	        case DW_LNS_const_add_pc:
 		    if (max_ops_per_insn ==  1)
-- 
2.43.0


From 040725fad73ad986ad22892a578e9364874aa5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:40 +0000
Subject: [PATCH 133/150] fix: -b did not see an access that ends where the
 object begins

---
 lib/tinycc/lib/bcheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/lib/bcheck.c b/lib/tinycc/lib/bcheck.c
index f609a22..b0cd5bc 100644
--- a/lib/tinycc/lib/bcheck.c
+++ b/lib/tinycc/lib/bcheck.c
@@ -603,7 +603,8 @@ void * __bound_ptr_indir ## dsize (void *p, size_t offset)                     \
             addr -= tree->start;                                               \
         }                                                                      \
         if (addr <= tree->size) {                                              \
-            if (tree->is_invalid || addr + offset + dsize > tree->size) {      \
+            if (tree->is_invalid || addr + offset > tree->size ||             \
+                addr + offset + dsize > tree->size) {                          \
                 POST_SEM ();                                                   \
                 bound_warning("%p is outside of the region", p + offset); \
                 if (never_fatal <= 0)                                          \
-- 
2.43.0


From 15bc3589c874fad778b7e6d6f0702c6c8c874164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:40 +0000
Subject: [PATCH 134/150] fix: -b let invalid pointers through to library
 functions

---
 lib/tinycc/lib/bcheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/lib/bcheck.c b/lib/tinycc/lib/bcheck.c
index b0cd5bc..f6ea0a0 100644
--- a/lib/tinycc/lib/bcheck.c
+++ b/lib/tinycc/lib/bcheck.c
@@ -1721,7 +1721,8 @@ int __bound_munmap (void *start, size_t size)
 /* check that (p ... p + size - 1) lies inside 'p' region, if any */
 static void __bound_check(const void *p, size_t size, const char *function)
 {
-    if (size != 0 && __bound_ptr_add((void *)p, size) == INVALID_POINTER) {
+    if (size != 0 && (p == INVALID_POINTER
+                      || __bound_ptr_add((void *)p, size) == INVALID_POINTER)) {
         bound_error("invalid pointer %p, size 0x%lx in %s",
                 p, (unsigned long)size, function);
     }
-- 
2.43.0


From 55db217a20a02a159426f412fd5bfac48325a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 135/150] fix: -b checked strncpy only for the copied part of
 the destination

---
 lib/tinycc/lib/bcheck.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/lib/bcheck.c b/lib/tinycc/lib/bcheck.c
index f6ea0a0..2765e04 100644
--- a/lib/tinycc/lib/bcheck.c
+++ b/lib/tinycc/lib/bcheck.c
@@ -1896,6 +1896,8 @@ char *__bound_strncpy(char *dest, const char *src, size_t n)
     __bound_check(src, len, "strncpy src");
     if (check_overlap(dest, len, src, len, "strncpy"))
         return dest;
+    /* the rest is filled with zeros */
+    __bound_check(dest, n, "strncpy dest");
     return strncpy(dest, src, n);
 }
 
-- 
2.43.0


From 9ecc8964fcc2f8ca96241e13ba7f7495d6bf23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 136/150] fix: constructors of executables built with -b
 crashed

---
 lib/tinycc/lib/bcheck.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/lib/bcheck.c b/lib/tinycc/lib/bcheck.c
index 2765e04..21b6f86 100644
--- a/lib/tinycc/lib/bcheck.c
+++ b/lib/tinycc/lib/bcheck.c
@@ -376,7 +376,11 @@ static pthread_key_t no_checking_key;
                                   *p = 0;                                     \
                                   pthread_setspecific(no_checking_key, p);    \
                             }
-#define NO_CHECKING_GET()   ({ int *p = pthread_getspecific(no_checking_key); \
+/* constructors may come before __bt_init() */
+#define NO_CHECKING_GET()   ({ int *p;                                        \
+                               if (!inited)                                   \
+                                   __bound_init(0, -1);                       \
+                               p = pthread_getspecific(no_checking_key);      \
                                NO_CHECKING_CHECK();                           \
                                *p;                                            \
                             })
-- 
2.43.0


From 9e57b612c421864e2430fb1c546244c9f1b6a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 137/150] fix: asm memory operands with an index only were
 rejected

---
 lib/tinycc/i386-asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 33783d5..75862a3 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -442,7 +442,7 @@ static void parse_operand(TCCState *s1, Operand *op)
             op->e = e;
         } else {
             next();
-            if (tok == '%') {
+            if (tok == '%' || tok == ',') {
                 unget_tok('(');
                 op->e.v = 0;
                 op->e.sym = NULL;
-- 
2.43.0


From 5f3462fad609edec62216a68bb565d706554dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 138/150] fix: asm xchg of eax with itself was encoded as nop

---
 lib/tinycc/i386-asm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 75862a3..9bd3af1 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -805,6 +805,12 @@ again:
 	    && (ops[1].type & OP_REG) == OP_REG64
 	    && !(pa->instr_type & OPC_0F))
 	    continue;
+	/* 0x90 is nop and would not clear the upper half of rax like
+	   "xchg %eax,%eax" does.  */
+	if (pa->opcode == 0x90 && nb_ops == 2
+	    && (ops[0].type & OP_REG) == OP_REG32
+	    && (ops[0].type & ops[1].type & OP_EAX))
+	    continue;
 #endif
         /* now decode and check each operand */
 	alltypes = 0;
-- 
2.43.0


From e53e0ebb4ee13e22d6944a1f96ef94cf2ca05d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 139/150] fix: asm fcom without operand was encoded as another
 instruction

---
 lib/tinycc/i386-asm.h   | 3 ++-
 lib/tinycc/x86_64-asm.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/i386-asm.h b/lib/tinycc/i386-asm.h
index 0f99b28..3df87a1 100644
--- a/lib/tinycc/i386-asm.h
+++ b/lib/tinycc/i386-asm.h
@@ -235,7 +235,8 @@ ALT(DEF_ASM_OP1(jo, 0x70, 0, OPC_TEST, OPT_DISP8))
     DEF_ASM_OP1(jecxz, 0xe3, 0, 0, OPT_DISP8)
      
      /* float */
-     /* specific fcomp handling */
+     /* specific fcom and fcomp handling */
+ALT(DEF_ASM_OP0L(fcom, 0xd8d1, 0, 0))
 ALT(DEF_ASM_OP0L(fcomp, 0xd8d9, 0, 0))
 
 ALT(DEF_ASM_OP1(fadd, 0xd8c0, 0, OPC_FARITH | OPC_REG, OPT_ST))
diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 339e1df..2fa64a1 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -254,7 +254,8 @@ ALT(DEF_ASM_OP1(jo, 0x70, 0, OPC_TEST, OPT_DISP8))
     DEF_ASM_OP1(jecxz, 0x67e3, 0, 0, OPT_DISP8)
 
      /* float */
-     /* specific fcomp handling */
+     /* specific fcom and fcomp handling */
+ALT(DEF_ASM_OP0L(fcom, 0xd8d1, 0, 0))
 ALT(DEF_ASM_OP0L(fcomp, 0xd8d9, 0, 0))
 
 ALT(DEF_ASM_OP1(fadd, 0xd8c0, 0, OPC_FARITH | OPC_REG, OPT_ST))
-- 
2.43.0


From 8c23398e7aa61f0ccf1a28b511100a3979993474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 140/150] fix: asm sldt and smsw of 16-bit registers lost the
 operand size

---
 lib/tinycc/i386-asm.h   | 6 ++++--
 lib/tinycc/x86_64-asm.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/i386-asm.h b/lib/tinycc/i386-asm.h
index 3df87a1..1365ac2 100644
--- a/lib/tinycc/i386-asm.h
+++ b/lib/tinycc/i386-asm.h
@@ -356,8 +356,10 @@ ALT(DEF_ASM_OP2(lslw, 0x0f03, 0, OPC_MODRM | OPC_WLX, OPT_EA | OPT_REG, OPT_REG)
     DEF_ASM_OP1(ltr, 0x0f00, 3, OPC_MODRM, OPT_EA | OPT_REG)
     DEF_ASM_OP1(sgdt, 0x0f01, 0, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidt, 0x0f01, 1, OPC_MODRM, OPT_EA)
-    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA)
-    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA)
+    DEF_ASM_OP1(sldt, 0x660f00, 0, OPC_MODRM, OPT_REG16)
+ALT(DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA))
+    DEF_ASM_OP1(smsw, 0x660f01, 4, OPC_MODRM, OPT_REG16)
+ALT(DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA))
     DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM, OPT_REG16| OPT_EA)
     DEF_ASM_OP1(verr, 0x0f00, 4, OPC_MODRM, OPT_REG | OPT_EA)
     DEF_ASM_OP1(verw, 0x0f00, 5, OPC_MODRM, OPT_REG | OPT_EA)
diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 2fa64a1..67c5dcc 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -386,8 +386,10 @@ ALT(DEF_ASM_OP2(lslw, 0x0f03, 0, OPC_MODRM | OPC_WLX, OPT_EA | OPT_REG, OPT_REG)
     DEF_ASM_OP1(sgdtq, 0x0f01, 0, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidt, 0x0f01, 1, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidtq, 0x0f01, 1, OPC_MODRM, OPT_EA)
-    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA)
-    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA)
+    DEF_ASM_OP1(sldt, 0x660f00, 0, OPC_MODRM, OPT_REG16)
+ALT(DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA))
+    DEF_ASM_OP1(smsw, 0x660f01, 4, OPC_MODRM, OPT_REG16)
+ALT(DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA))
     DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM, OPT_REG32 | OPT_EA)
 ALT(DEF_ASM_OP1(str, 0x660f00, 1, OPC_MODRM, OPT_REG16))
 ALT(DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM | OPC_48, OPT_REG64))
-- 
2.43.0


From 67dd604e1ee9639d7e144ffeec75d2f63e6d4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 141/150] fix: asm pavgb, pavgw of SSE registers and rcpss were
 encoded as other instructions

---
 lib/tinycc/i386-asm.h   | 6 +++---
 lib/tinycc/x86_64-asm.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/i386-asm.h b/lib/tinycc/i386-asm.h
index 1365ac2..d5f350a 100644
--- a/lib/tinycc/i386-asm.h
+++ b/lib/tinycc/i386-asm.h
@@ -471,13 +471,13 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(maxps, 0x0f5f, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(minps, 0x0f5d, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(mulps, 0x0f59, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
+    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxsw, 0x0fee, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminub, 0x0fda, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-    DEF_ASM_OP2(rcpss, 0x0f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(rcpss, 0xf30f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(rsqrtps, 0x0f52, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(sqrtps, 0x0f51, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(subps, 0x0f5c, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 67c5dcc..975098c 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -515,13 +515,13 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(maxps, 0x0f5f, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(minps, 0x0f5d, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(mulps, 0x0f59, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
+    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxsw, 0x0fee, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminub, 0x0fda, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-    DEF_ASM_OP2(rcpss, 0x0f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(rcpss, 0xf30f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(rsqrtps, 0x0f52, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(sqrtps, 0x0f51, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(subps, 0x0f5c, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-- 
2.43.0


From 2f50eab9991d40bd6e799a652da65f782c97e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 142/150] fix: asm expressions divided negative numbers as
 unsigned

---
 lib/tinycc/tccasm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index dcdcfb3..625aee5 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -247,12 +247,16 @@ static void asm_expr_prod(TCCState *s1, ExprValue *pe)
             div_error:
                 tcc_error("division by zero");
             }
-            pe->v /= e2.v;
+            /* signed, and without trapping */
+            if (e2.v == -1)
+                pe->v = -pe->v;
+            else
+                pe->v = (int64_t)pe->v / (int64_t)e2.v;
             break;
         case '%':  
             if (e2.v == 0)
                 goto div_error;
-            pe->v %= e2.v;
+            pe->v = e2.v == -1 ? 0 : (int64_t)pe->v % (int64_t)e2.v;
             break;
         case TOK_SHL:
             pe->v <<= e2.v;
-- 
2.43.0


From dba2737629464f274ad33f95c2b08cf2a463a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 143/150] fix: strings and characters were refused after a
 .file directive

---
 lib/tinycc/tccasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 625aee5..5c917b4 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -779,10 +779,12 @@ static void asm_parse_directive(TCCState *s1, int global)
     case TOK_ASMDIR_file:
         {
             const char *p;
+            int saved_parse_flags = parse_flags;
             parse_flags &= ~PARSE_FLAG_TOK_STR;
             next();
             if (tok == TOK_PPNUM)
                 next();
+            parse_flags = saved_parse_flags;
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
                 tokc.str.data[tokc.str.size - 2] = 0;
                 p = tokc.str.data + 1;
-- 
2.43.0


From 65a6eb9061637f50558573df5f460dd23254b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 144/150] fix: the write flag of asm sections was ignored

---
 lib/tinycc/tccasm.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 5c917b4..a041286 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -865,6 +865,8 @@ static void asm_parse_directive(TCCState *s1, int global)
         {
             char sname[256];
 	    int old_nb_section = s1->nb_sections;
+	    int sh_flags = -1;
+	    const char *p;
 
 	    tok1 = tok;
             /* XXX: support more options */
@@ -878,10 +880,16 @@ static void asm_parse_directive(TCCState *s1, int global)
                 next();
             }
             if (tok == ',') {
-                /* skip section options */
+                /* section options other than 'w' and 'x' are skipped */
                 next();
                 if (tok != TOK_STR)
                     expect("string constant");
+                sh_flags = 0;
+                for (p = tokc.str.data; *p; p++)
+                    if (*p == 'w')
+                        sh_flags |= SHF_WRITE;
+                    else if (*p == 'x')
+                        sh_flags |= SHF_EXECINSTR;
                 next();
                 if (tok == ',') {
                     next();
@@ -893,12 +901,14 @@ static void asm_parse_directive(TCCState *s1, int global)
             last_text_section = cur_text_section;
 	    if (tok1 == TOK_ASMDIR_section) {
 	        use_section(s1, sname);
-            /* The section directive supports flags, but they are unsupported.
-            For now, just assume any section contains code. */
-            cur_text_section->sh_flags |= SHF_EXECINSTR;
-        }
+                /* without flags just assume any section contains code. */
+                if (sh_flags < 0)
+                    sh_flags = SHF_EXECINSTR;
+            }
 	    else
 	        push_section(s1, sname);
+	    if (sh_flags > 0)
+	        cur_text_section->sh_flags |= sh_flags;
 	    /* If we just allocated a new section reset its alignment to
 	       1.  new_section normally acts for GCC compatibility and
 	       sets alignment to PTR_SIZE.  The assembler behaves different. */
-- 
2.43.0


From bc4b409d37b1c798789ec2c92d8f7f0432a58711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 145/150] fix: asm .align 0 overran the section

---
 lib/tinycc/tccasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index a041286..ae26be3 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -523,6 +523,8 @@ static void asm_parse_directive(TCCState *s1, int global)
         if (tok1 == TOK_ASMDIR_align || tok1 == TOK_ASMDIR_balign) {
             if (n < 0 || (n & (n-1)) != 0)
                 tcc_error("alignment must be a positive power of two");
+            if (n == 0)
+                n = 1;
             offset = (ind + n - 1) & -n;
             size = offset - ind;
             /* the section must have a compatible alignment */
-- 
2.43.0


From 6c2b3202c3ab6b6369d51002629aea152ae560fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 146/150] fix: asm alignment in code was padded with zero bytes

---
 lib/tinycc/tccasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index ae26be3..5e737ca 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -530,6 +530,11 @@ static void asm_parse_directive(TCCState *s1, int global)
             /* the section must have a compatible alignment */
             if (sec->sh_addralign < n)
                 sec->sh_addralign = n;
+            /* code can run through the padding */
+            if (tok != ',' && (sec->sh_flags & SHF_EXECINSTR)) {
+                gen_fill_nops(size);
+                break;
+            }
         } else {
 	    if (n < 0)
 	        n = 0;
-- 
2.43.0


From cd24c8f594a97dfb1fe3317b403baaeedf5106c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:59 +0000
Subject: [PATCH 147/150] fix: asm constraint n was refused

---
 lib/tinycc/i386-asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 9bd3af1..1ca2450 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -1209,6 +1209,7 @@ static inline int constraint_priority(const char *str)
         case 'I':
 	case 'e':
         case 'i':
+        case 'n':
         case 'm':
         case 'g':
             pr = 4;
@@ -1432,6 +1433,7 @@ ST_FUNC void asm_compute_constraints(ASMOperand *operands,
         case 'I':
         case 'N':
         case 'M':
+        case 'n':
             if (!((op->vt->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == VT_CONST))
                 goto try_next;
             break;
-- 
2.43.0


From d38ad68a3b4a732a7b68ef64c03afa15ac36ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:59 +0000
Subject: [PATCH 148/150] fix: register variables named without % were not
 bound to their register

---
 lib/tinycc/i386-asm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 1ca2450..89c5fa0 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -1240,9 +1240,15 @@ ST_FUNC int asm_parse_regvar (int t)
     if (t < TOK_IDENT || (t & SYM_FIELD))
         return -1;
     s = table_ident[t - TOK_IDENT]->str;
-    if (s[0] != '%')
+    t = tok_alloc_const(s + (s[0] == '%'));
+    if (!(t >= TOK_ASM_al && t <= TOK_ASM_edi)
+#ifdef TCC_TARGET_X86_64
+        && !(t >= TOK_ASM_rax && t <= TOK_ASM_rdi)
+        && !(t >= TOK_ASM_spl && t <= TOK_ASM_dil)
+        && asm_parse_numeric_reg(t, &op.type) < 0
+#endif
+        && s[0] != '%')
         return -1;
-    t = tok_alloc_const(s + 1);
     unget_tok(t);
     unget_tok('%');
     parse_operand(tcc_state, &op);
-- 
2.43.0


From bfc9b91c80f960a0b5324e1d15c8c87f50e0f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:59 +0000
Subject: [PATCH 149/150] fix: asm bswap of 64-bit registers was refused

---
 lib/tinycc/x86_64-asm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 975098c..41682ad 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -400,6 +400,7 @@ ALT(DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM | OPC_48, OPT_REG64))
     /* 486 */
     /* bswap can't be applied to 16bit regs */
     DEF_ASM_OP1(bswap, 0x0fc8, 0, OPC_REG, OPT_REG32 )
+ALT(DEF_ASM_OP1(bswap, 0x0fc8, 0, OPC_REG | OPC_48, OPT_REG64 ))
     DEF_ASM_OP1(bswapl, 0x0fc8, 0, OPC_REG, OPT_REG32 )
     DEF_ASM_OP1(bswapq, 0x0fc8, 0, OPC_REG | OPC_48, OPT_REG64 )
 
-- 
2.43.0


From 5d6fb8afe9f82adeeb0dc885eb87305ff33a1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:06 +0000
Subject: [PATCH 150/150] fix: make a section that holds a variable writable

---
 lib/tinycc/tccgen.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 5a6660f..12b744f 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -8319,11 +8319,15 @@ static void decl_initializer_alloc(CType *type, AttributeDef *ad, int r,
         }
 
         /* allocate symbol in corresponding section */
+        CType *tp = type;
+        while ((tp->t & (VT_BTYPE|VT_ARRAY)) == (VT_PTR|VT_ARRAY))
+            tp = &tp->ref->type;
         sec = ad->section;
-        if (!sec) {
-            CType *tp = type;
-            while ((tp->t & (VT_BTYPE|VT_ARRAY)) == (VT_PTR|VT_ARRAY))
-                tp = &tp->ref->type;
+        if (sec) {
+            /* the section must be writable if any object in it is */
+            if (!(tp->t & VT_CONSTANT) && !(sec->sh_flags & SHF_EXECINSTR))
+                sec->sh_flags |= SHF_WRITE;
+        } else {
             if (tp->t & VT_CONSTANT) {
 		sec = rodata_section;
             } else if (has_init) {
-- 
2.43.0

