From 8c96d6acce4a09e9c5a81d56e164fbbfe832b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 01/42] fix: report damaged archives and failed writes when
 extracting

muntargz_to_path ignored short writes, damaged or truncated headers and
entries it could not represent, so that --xtgz and the asset extraction
reported success for incomplete trees. Paths could also overflow the
buffer, 100 byte names lost their last character, and archives with a
high compression ratio were refused.
---
 src/file.c   |  14 ++--
 src/main.c   |   5 +-
 src/muntar.c | 181 +++++++++++++++++++++++++++++----------------------
 3 files changed, 115 insertions(+), 85 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..37f357d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -39,17 +39,19 @@ static long file_size(const char *filename) {
 		fail(filename);
         return -1;
     }
-    fseek(file, 0, SEEK_END);
-    long length = ftell(file);
+    long length = -1;
+    if(fseek(file, 0, SEEK_END) == 0) length = ftell(file);
+    if(length < 0) fail(filename);
     fclose(file);
     return length;
 }
 
 char* file_load(const char *filename, unsigned int *len) {
-    size_t length = file_size(filename);
-    if (length < 1) {
+    long size = file_size(filename);
+    if (size < 1) {
         return NULL;
     }
+    size_t length = size;
 
     FILE *file = fopen(filename, "rb");
     if (file == NULL) {
@@ -67,7 +69,9 @@ char* file_load(const char *filename, unsigned int *len) {
     // _err("Loading source file %s",filename);
 
     if(fread(contents, 1, length, file)<length) {
-		fail(file);
+		fail(filename);
+		free(contents);
+		fclose(file);
 		return NULL;
 	}
 
diff --git a/src/main.c b/src/main.c
index da30183..747f7ec 100644
--- a/src/main.c
+++ b/src/main.c
@@ -265,7 +265,10 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
+		  if(muntargz_to_path(".",targz,len) != 0) {
+			  _err("Error extracting: %s",opt.arg);
+			  exit(1);
+		  }
 		  exit(0);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..118d3bb 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -102,7 +102,7 @@ static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 	chksum2 = (uint32_t) decodeTarOctal(rh->checksum, sizeof(rh->checksum));
 	if (chksum1 != chksum2) return MTAR_EBADCHKSUM;
 
-	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_ENULLRECORD;
+	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_EFAILURE;
 
 	h->mode     = (uint32_t) decodeTarOctal(rh->mode, sizeof(rh->mode));
 	h->uid      = (uint32_t) decodeTarOctal(rh->uid, sizeof(rh->uid));
@@ -113,12 +113,12 @@ static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 	h->devminor = (uint32_t) decodeTarOctal(rh->devminor, sizeof(rh->devminor));
 
 	h->type = (uint32_t) rh->type;
-	strncpy(h->name, rh->name, sizeof(h->name));
-	h->name[ sizeof(h->name) - 1 ] = 0;
-	strncpy(h->linkname, rh->linkname, sizeof(h->linkname));
-	h->linkname[ sizeof(h->linkname) - 1 ] = 0;
-	strncpy(h->path, rh->path, sizeof(h->path));
-	h->path[ sizeof(h->path) - 1 ] = 0;
+	memcpy(h->name, rh->name, sizeof(rh->name));
+	h->name[ sizeof(rh->name) ] = 0;
+	memcpy(h->linkname, rh->linkname, sizeof(rh->linkname));
+	h->linkname[ sizeof(rh->linkname) ] = 0;
+	memcpy(h->path, rh->path, sizeof(rh->path));
+	h->path[ sizeof(rh->path) ] = 0;
 
 	return MTAR_ESUCCESS;
 }
@@ -140,18 +140,6 @@ static int mtar_seek(mtar_t *tar, size_t pos) {
 	return(MTAR_ESUCCESS);
 }
 
-static int mtar_rewind(mtar_t *tar) {
-	int err;
-	tar->iterator.offset = UINT64_MAX;
-	tar->iterator.cursor = UINT64_MAX;
-	err = mtar_seek(tar, 0);
-	if (err != MTAR_ESUCCESS) return err;
-	err = mtar_read_header(tar, &(tar->iterator.header));
-	if (err != MTAR_ESUCCESS) return err;
-	tar->iterator.offset = 0;
-	tar->iterator.cursor = 512;
-	return(MTAR_ESUCCESS);
-}
 ///////////////////
 // PUBLIC FUNCTIONS
 ///////////////////
@@ -159,89 +147,110 @@ static int mtar_rewind(mtar_t *tar) {
 
 #if defined(_WIN32) || defined(WINDOWS)
 #include <windows.h>
+#include <sys/stat.h>
 #define makedir(path) CreateDirectory(path, NULL)
 #else
 #include <sys/stat.h>
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// create a directory, success also when it exists already
+static int ensure_dir(const char *path) {
+	struct stat info;
+	makedir(path);
+	if(stat(path, &info) != 0 || !(info.st_mode & S_IFDIR)) {
+		fprintf(stderr,"Error creating directory: %s\n",path);
+		return(MTAR_EWRITEFAIL);
+	}
+	return(MTAR_ESUCCESS);
+}
+
+// compose the destination of an entry and create its parent directories
+static int entry_path(char *tpath, const size_t max, const char *path,
+		      const mtar_header_t *header) {
+	int res, len;
+	char *p;
+	if(header->path[0]!=0) // subdir
+		len = snprintf(tpath,max,"%s/%s/%s",path,
+			       header->path,header->name);
+	else
+		len = snprintf(tpath,max,"%s/%s",path,header->name);
+	if(len<0 || (size_t)len>=max) return(MTAR_EOPENFAIL);
+	for(p=tpath+strlen(path)+1; (p=strchr(p,'/')); p++) {
+		*p = 0x0;
+		res = ensure_dir(tpath);
+		*p = '/';
+		if(res != MTAR_ESUCCESS) return(res);
+	}
+	return(MTAR_ESUCCESS);
+}
+
+static int write_entry(const char *path, const uint8_t *buf, const size_t len) {
+	size_t written;
+	FILE *fp = fopen(path,"wb");
+	if(!fp) {
+		fprintf(stderr,"Error open file for write: %s\n",path);
+		perror("Reason: ");
+		return(MTAR_EWRITEFAIL);
+	}
+	written = fwrite(buf,1,len,fp);
+	if(fclose(fp) != 0 || written != len) {
+		fprintf(stderr,"Error writing file: %s\n",path);
+		perror("Reason: ");
+		return(MTAR_EWRITEFAIL);
+	}
+	return(MTAR_ESUCCESS);
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
 	int res;
+	int skipped = 0;
 	mtar_t tar;
-	char tpath[512];
-	const size_t pathlen = strlen(path);
-	if(pathlen>100) return(MTAR_EFAILURE);
-	char *p;
+	char tpath[1024];
 	const mtar_header_t *header = NULL;
-	strcpy(tpath, path);
-	res = mtar_load(&tar, path, buf, len);
-	if(res != MTAR_ESUCCESS) return(MTAR_EOPENFAIL);
 	// first create extract dir if doesn't exist
-	makedir(tpath);
-	while(!mtar_eof(&tar)) {
-		// then create every other subdir
-		p = tpath+pathlen;
-		*p = '/'; p++;
+	res = ensure_dir(path);
+	if(res != MTAR_ESUCCESS) return(res);
+	res = mtar_load(&tar, path, buf, len);
+	while(res == MTAR_ESUCCESS) {
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TDIR:
-			if(header->path[0]!=0) { // subdir
-				const size_t subdirlen = strlen(header->path);
-				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
-				strcpy(p,header->path);
-				p += subdirlen;
-				*p = '/'; p++;
-			}
-			const size_t namelen = strlen(header->name);
-			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
-			strcpy(p,header->name);
-			makedir(tpath);
+			res = entry_path(tpath,sizeof(tpath),path,header);
+			if(res != MTAR_ESUCCESS) return(res);
+			res = ensure_dir(tpath);
+			if(res != MTAR_ESUCCESS) return(res);
 			break;
-		}
-		mtar_next(&tar);
-	}
-	mtar_rewind(&tar);
-	while(!mtar_eof(&tar)) {
-		// and at last create the files
-		p = tpath+pathlen;
-		*p = '/'; p++;
-		mtar_header(&tar, &header);
-		switch(header->type) {
+		case 0: // regular file in old archives
 		case MTAR_TREG:
-			if(header->path[0]!=0) { // subdir
-				const size_t subdirlen = strlen(header->path);
-				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
-				strcpy(p,header->path);
-				p += subdirlen;
-				*p = '/'; p++;
-			}
-			const size_t namelen = strlen(header->name);
-			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
-			strcpy(p,header->name);
-			FILE *fp = fopen(tpath,"wb");
-			if(!fp) {
-				fprintf(stderr,
-					"Error open file for write: %s\n",
-					tpath);
-				perror("Reason: ");
-				return(MTAR_EWRITEFAIL);
-			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			if(header->size > tar.max - tar.iterator.cursor)
+				return(MTAR_EREADFAIL); // truncated
+			res = entry_path(tpath,sizeof(tpath),path,header);
+			if(res != MTAR_ESUCCESS) return(res);
+			res = write_entry(tpath,
+					  &tar.buffer[tar.iterator.cursor],
+					  header->size);
+			if(res != MTAR_ESUCCESS) return(res);
+			break;
+		case 'g': // global comment
 			break;
+		default:
+			fprintf(stderr,"Unsupported entry type: %s\n",
+				header->name);
+			skipped++;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
 	}
-	return(MTAR_ESUCCESS);
+	// a null record marks the end, anything else is damage
+	if(res != MTAR_ENULLRECORD) return(res);
+	return(skipped? MTAR_EFAILURE : MTAR_ESUCCESS);
 }
 
 #if !defined(NOGUNZIP)
 // gunzip and untar all in one
 #include <tinf.h>
-#define DECOMPRESSED_SIZE_RATIO 10 // raise this on errors
 int muntargz_to_path(const char *path, const uint8_t *buf,
 		    const unsigned int len) {
 	if(!buf) {
@@ -255,8 +264,18 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 		return(-1);
 	}
 	int res;
-	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
-	uint8_t *dest = malloc(destlen);
+	if(len<18) {
+		fprintf(stderr,"Error: not a gzip archive\n");
+		return(-1);
+	}
+	// the decompressed length is at the end of a gzip stream
+	unsigned int destlen = buf[len-4] | (buf[len-3]<<8)
+		| (buf[len-2]<<16) | ((unsigned int)buf[len-1]<<24);
+	uint8_t *dest = malloc((size_t)destlen+1);
+	if(!dest) {
+		fprintf(stderr,"%s: out of memory\n",__func__);
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
@@ -265,7 +284,7 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 	if(res != TINF_OK) {
 		fprintf(stderr,"Error in gunzip decompression (untargz_to_path)\n");
 		free(dest);
-		exit(res);
+		return(-1);
 	}
 	res = muntar_to_path(path, dest, destlen);
 	free(dest);
@@ -315,6 +334,10 @@ int mtar_next(mtar_t *tar)
 
 	position = tar->iterator.offset + 512 + tar->iterator.header.size;
 	position = (size_t) ( (uint64_t)(position + 511) & (uint64_t) (~0x01FF) );
+	if (position == tar->max) { // no null record at the end
+		err = MTAR_ENULLRECORD;
+		goto ESCAPE;
+	}
 	err = mtar_seek(tar, position);
 	if (err != MTAR_ESUCCESS) goto ESCAPE;
 	err = mtar_read_header(tar, &tar->iterator.header);
-- 
2.43.0


From b5d5ec121c9d4639def41cb9787f1a0f4d033774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 02/42] fix: never use incompletely extracted runtime assets

---
 src/cjit.c | 102 ++++++++++++++++++++++++++++++++++++++++-------------
 src/cjit.h |   3 ++
 src/main.c |  13 +++----
 3 files changed, 85 insertions(+), 33 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..d03808f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -34,7 +34,7 @@
 #include <sys/stat.h> // fstat(2)
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
@@ -50,6 +50,74 @@ extern bool    get_winsdkpath(char *dst, size_t destlen);
 // from file.c
 extern char *new_abspath(const char *path);
 
+#if !defined(WINDOWS)
+static bool ensure_dir(const char *path) {
+	struct stat info;
+	mkdir(path,0755);
+	if(stat(path,&info) != 0) {
+		fail(path);
+		_err("Failed to create runtime assets dir: %s",path);
+		return(false);
+	}
+	if(!S_ISDIR(info.st_mode)) {
+		_err("Runtime assets dir is a file, cannot overwrite: %s",path);
+		return(false);
+	}
+	return(true);
+}
+
+// The marker file inside the runtime assets dir is empty until all
+// assets are extracted, and locked by the process extracting them.
+static bool assets_lock(CJITState *cjit, const char *path) {
+	char marker[MAX_PATH];
+	struct stat info;
+	struct flock lock;
+	int fd;
+	snprintf(marker,MAX_PATH,"%s/.complete",path);
+	if(stat(marker,&info) == 0 && info.st_size > 0) {
+		cjit->fresh = false;
+		return(true);
+	}
+	fd = open(marker, O_RDWR | O_CREAT, 0644);
+	if(fd < 0) {
+		fail(marker);
+		return(false);
+	}
+	memset(&lock,0x0,sizeof(lock));
+	lock.l_type = F_WRLCK;
+	lock.l_whence = SEEK_SET;
+	while(fcntl(fd,F_SETLKW,&lock) < 0) {
+		if(errno == EINTR) continue;
+		fail(marker);
+		close(fd);
+		return(false);
+	}
+	// another process may have completed the extraction meanwhile
+	if(fstat(fd,&info) < 0) {
+		fail(marker);
+		close(fd);
+		return(false);
+	}
+	cjit->fresh = (info.st_size == 0);
+	if(cjit->fresh) cjit->assets_fd = fd;
+	else close(fd);
+	return(true);
+}
+#endif
+
+#if !defined(SHAREDTCC)
+bool cjit_assets(CJITState *cjit, const char *optional_path) {
+	bool res = extract_assets(cjit, optional_path);
+	if(cjit->assets_fd > 0) {
+		if(res) res = write(cjit->assets_fd,"1",1) == 1;
+		if(close(cjit->assets_fd) != 0) res = false;
+		cjit->assets_fd = 0;
+	}
+	if(!res) _err("Failed to extract runtime assets");
+	return(res);
+}
+#endif
+
 // second argument is optional and if left NULL then default path is
 // used: ${TEMPDIR}/CJIT-vN.N.N
 bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
@@ -63,19 +131,12 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 			return false;
 		}
 #else
-		struct stat info;
-		if (stat(tempDir, &info) != 0) {
-			// stat() failed; the path does not exist
-			cjit->fresh = true;
-		} else if (info.st_mode & S_IFDIR) {
-			// The path exists and is a directory
-			cjit->fresh = false;
-		} else {
-			_err("Cannot overwrite runtime include dir: %s",tempDir);
-			// The path exists but is not a directory
+		// always extract to a path given by the user
+		cjit->fresh = true;
+		if(!ensure_dir(tempDir)) {
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
@@ -110,19 +171,10 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 		}
 #else // POSIX
 		snprintf(tempDir,259,"/tmp/cjit-%s",VERSION);
-		struct stat info;
-		if (stat(tempDir, &info) != 0) {
-			// stat() failed; the path does not exist
-			cjit->fresh = true;
-		} else if (info.st_mode & S_IFDIR) {
-			// The path exists and is a directory
-			cjit->fresh = false;
-		} else {
-			_err("Temp dir is a file, cannot overwrite: %s",tempDir);
-			// The path exists but is not a directory
+		if(!ensure_dir(tempDir) || !assets_lock(cjit,tempDir)) {
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
@@ -184,9 +236,9 @@ static bool cjit_setup(CJITState *cjit) {
 	}
 #if !defined(SHAREDTCC)
 	// extract all runtime assets to tmpdir
-	if(!extract_assets(cjit,NULL)) {
+	if(!cjit_assets(cjit,NULL)) {
 		fail("error extracting assets in temp dir");
-		return(NULL);
+		return(false);
 	}
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
diff --git a/src/cjit.h b/src/cjit.h
index 9533b4f..30d276b 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -39,6 +39,7 @@ struct CJITState {
 	bool live; // live coding mode
 	bool quiet; // print less to stderr
 	bool verbose; // print more to stderr
+	int assets_fd; // locked marker file while populating tempdir
 	bool fresh; // tempdir is freshly created and needs to be populated
 	int tcc_output; //
 	// #define TCC_OUTPUT_MEMORY   1 /* output will be run in memory */
@@ -96,6 +97,8 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 // from embedded.c - generated at build time
 extern bool extract_assets(CJITState *CJIT, const char *optional_path);
 extern bool cjit_mkdtemp(CJITState *cjit, const char *optional_path);
+// calls extract_assets and marks the temporary directory as complete
+extern bool cjit_assets(CJITState *cjit, const char *optional_path);
 /////////////
 // from file.c
 extern char* file_load(const char *filename, unsigned int *len);
diff --git a/src/main.c b/src/main.c
index 747f7ec..6ffb5ac 100644
--- a/src/main.c
+++ b/src/main.c
@@ -248,14 +248,12 @@ int main(int argc, char **argv) {
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
 		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
+			  _err("Extracting runtime assets to: %s",opt.arg);
 		  }
-		  _out(CJIT->tmpdir);
+		  res = cjit_assets(CJIT,opt.arg) ? 0 : 1; // arg is optional
+		  if(res == 0) _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
-		  exit(0);
+		  exit(res);
 #endif
 	  } else if (c == 501) { // --xtgz
 		  cjit_free(CJIT);
@@ -306,8 +304,7 @@ int main(int argc, char **argv) {
   if(opt.ind >= argc) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
-		  cjit_status(CJIT);
-		  res = 0;
+		  res = cjit_status(CJIT) ? 0 : 1;
 		  goto endgame;
 	  }
 
-- 
2.43.0


From 3c38da3bb6b407648ea3e46f884c2d7ab580c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 03/42] fix: keep all sources and application arguments around
 --

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6ffb5ac..6e22014 100644
--- a/src/main.c
+++ b/src/main.c
@@ -208,7 +208,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
@@ -272,7 +272,9 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  // skip the files, else what follows is the file
+		  arg_separator = opt.ind + (opt.n_args>0?opt.n_args:1);
+		  break;
 	  }
   }
   if(!CJIT->quiet)
@@ -414,6 +416,7 @@ char** remove_args(int* argc, char** argv,
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
+        if (strcmp(argv[i], "--") == 0) break; // app arguments follow
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From 894df7a4f6201ffddc5c8b86adf851be00526bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 04/42] fix: fail when a source file is unreadable or does not
 compile

---
 src/cjit.c | 19 +++++++++++++------
 src/main.c |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index d03808f..46ce7ea 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -411,8 +411,8 @@ static int has_source_extension(const char *path) {
 }
 
 static int detect_bom(const char *filename,size_t *filesize) {
-	uint8_t bom[3];
-	int res;
+	uint8_t bom[3] = {0,0,0};
+	ssize_t res;
 	int fd = open(filename, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(filename);
@@ -427,7 +427,7 @@ static int detect_bom(const char *filename,size_t *filesize) {
 	*filesize = st.st_size;
 	res = read(fd,bom,3);
 	close(fd);
-	if (res!=3) {
+	if (res<0) {
 		fail(filename);
 		return -1;
 	}
@@ -488,8 +488,9 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+	if(length != fread(contents+spath_len, 1, length, file)) {
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
@@ -500,14 +501,20 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		cwk_path_get_dirname(path,&dirname);
 		if(dirname) {
 			char *tmp = malloc(dirname+1);
+			if(!tmp) {
+				fail(path);
+				free(contents);
+				return false;
+			}
 			strncpy(tmp,path,dirname);
 			tmp[dirname] = 0x0;
 			tcc_add_include_path(tcc(cjit),tmp);
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
+	if(res<0) return false;
 	debug("+S %s",path);
 	return true;
 }
diff --git a/src/main.c b/src/main.c
index 6e22014..b917ebd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -370,7 +370,7 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path)) goto endgame;
 		  }
 	  }
   }
-- 
2.43.0


From c6bc18cc036856a340e0e637c2dac8bee72744c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 05/42] fix: detect unreadable and truncated inputs and failed
 outputs

---
 lib/tinycc/libtcc.c | 12 +++++---
 lib/tinycc/tccelf.c | 68 +++++++++++++++++++++++++++++++++++++--------
 lib/tinycc/tccpp.c  |  5 +++-
 src/cjit.c          | 27 ++++++++++++------
 4 files changed, 86 insertions(+), 26 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 5b6606e..e98faf5 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -200,10 +200,9 @@ PUB_FUNC char *tcc_fileextension (const char *name)
 ST_FUNC char *tcc_load_text(int fd)
 {
     int len = lseek(fd, 0, SEEK_END);
-    char *buf = load_data(fd, 0, len + 1);
-    if (buf)
-        buf[len] = 0;
-    return buf;
+    if (len < 0)
+        return NULL;
+    return load_data(fd, 0, len); /* is zero-terminated */
 }
 
 /********************************************************/
@@ -1017,6 +1016,8 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
     /* open the file */
     fd = _tcc_open(s1, filename);
     if (fd < 0) {
+        if (errno != ENOENT && errno != ENOTDIR)
+            return tcc_error_noabort("cannot open '%s': %s", filename, strerror(errno));
         if (flags & AFF_PRINT_ERROR)
             tcc_error_noabort("file '%s' not found", filename);
         return FILE_NOT_FOUND;
@@ -1792,6 +1793,9 @@ static int args_parser_listfile(TCCState *s,
         return tcc_error_noabort("listfile '%s' not found", filename);
 
     p = tcc_load_text(fd);
+    close(fd);
+    if (!p)
+        return tcc_error_noabort("cannot read listfile '%s'", filename);
     for (i = 0; i < *pargc; ++i)
         if (i == optind)
             args_parser_make_argv(p, &argc, &argv);
diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..05bf3eb 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2661,7 +2661,7 @@ static int tcc_output_binary(TCCState *s1, FILE *f,
 static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
                               ElfW(Phdr) *phdr, int file_offset, int *sec_order)
 {
-    int fd, mode, file_type, ret;
+    int fd, mode, file_type, ret = 0;
     FILE *f;
 
     file_type = s1->output_type;
@@ -2671,8 +2671,12 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         mode = 0777;
     unlink(filename);
     fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, mode);
-    if (fd < 0 || (f = fdopen(fd, "wb")) == NULL)
-        return tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+    if (fd < 0 || (f = fdopen(fd, "wb")) == NULL) {
+        ret = tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+        if (fd >= 0)
+            close(fd), unlink(filename);
+        return ret;
+    }
     if (s1->verbose)
         printf("<- %s\n", filename);
 #ifdef TCC_TARGET_COFF
@@ -2684,7 +2688,11 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         ret = tcc_output_elf(s1, f, phnum, phdr, file_offset, sec_order);
     else
         ret = tcc_output_binary(s1, f, sec_order);
-    fclose(f);
+    mode = ferror(f);
+    if (fclose(f) || mode)
+        ret = tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+    if (ret < 0)
+        unlink(filename); /* do not leave an incomplete file */
 
     return ret;
 }
@@ -3027,13 +3035,18 @@ ST_FUNC ssize_t full_read(int fd, void *buf, size_t count) {
     }
 }
 
+/* return NULL if the file is shorter or cannot be read */
 ST_FUNC void *load_data(int fd, unsigned long file_offset, unsigned long size)
 {
-    void *data;
+    char *data;
 
-    data = tcc_malloc(size);
+    data = tcc_malloc(size + 1); /* never NULL, even if size is 0 */
     lseek(fd, file_offset, SEEK_SET);
-    full_read(fd, data, size);
+    if (full_read(fd, data, size) != size) {
+        tcc_free(data);
+        return NULL;
+    }
+    data[size] = 0;
     return data;
 }
 
@@ -3093,6 +3106,10 @@ invalid:
     /* read sections */
     shdr = load_data(fd, file_offset + ehdr.e_shoff,
                      sizeof(ElfW(Shdr)) * ehdr.e_shnum);
+    if (!shdr || ehdr.e_shstrndx >= ehdr.e_shnum) {
+        tcc_free(shdr);
+        goto invalid;
+    }
     sm_table = tcc_mallocz(sizeof(SectionMergeInfo) * ehdr.e_shnum);
 
     /* load section names */
@@ -3107,6 +3124,8 @@ invalid:
     seencompressed = 0;
     stab_index = stabstr_index = 0;
     ret = -1;
+    if (!strsec)
+        goto truncated;
 
     for(i = 1; i < ehdr.e_shnum; i++) {
         sh = &shdr[i];
@@ -3122,6 +3141,8 @@ invalid:
             /* now load strtab */
             sh = &shdr[sh->sh_link];
             strtab = load_data(fd, file_offset + sh->sh_offset, sh->sh_size);
+            if (!symtab || !strtab)
+                goto truncated;
         }
 	if (sh->sh_flags & SHF_COMPRESSED)
 	    seencompressed = 1;
@@ -3209,7 +3230,11 @@ invalid:
             unsigned char *ptr;
             lseek(fd, file_offset + sh->sh_offset, SEEK_SET);
             ptr = section_ptr_add(s, size);
-            full_read(fd, ptr, size);
+            if (full_read(fd, ptr, size) != size) {
+            truncated:
+                tcc_error_noabort("unreadable or truncated object file");
+                goto the_end;
+            }
         } else {
             s->data_offset += size;
         }
@@ -3625,7 +3650,8 @@ ST_FUNC int tcc_load_dll(TCCState *s1, int fd, const char *filename, int level)
     const char *name, *soname;
     struct versym_info v;
 
-    full_read(fd, &ehdr, sizeof(ehdr));
+    if (full_read(fd, &ehdr, sizeof(ehdr)) != sizeof(ehdr))
+        return tcc_error_noabort("unreadable or truncated library");
 
     /* test CPU specific stuff */
     if (ehdr.e_ident[5] != ELFDATA2LSB ||
@@ -3643,28 +3669,43 @@ ST_FUNC int tcc_load_dll(TCCState *s1, int fd, const char *filename, int level)
     dynsym = NULL; /* avoid warning */
     dynstr = NULL; /* avoid warning */
     memset(&v, 0, sizeof v);
+    if (!shdr) {
+    truncated:
+        tcc_error_noabort("unreadable or truncated library");
+        goto the_end;
+    }
 
     for(i = 0, sh = shdr; i < ehdr.e_shnum; i++, sh++) {
         switch(sh->sh_type) {
         case SHT_DYNAMIC:
             nb_dts = sh->sh_size / sizeof(ElfW(Dyn));
             dynamic = load_data(fd, sh->sh_offset, sh->sh_size);
+            if (!dynamic)
+                goto truncated;
             break;
         case SHT_DYNSYM:
             nb_syms = sh->sh_size / sizeof(ElfW(Sym));
             dynsym = load_data(fd, sh->sh_offset, sh->sh_size);
             sh1 = &shdr[sh->sh_link];
             dynstr = load_data(fd, sh1->sh_offset, sh1->sh_size);
+            if (!dynsym || !dynstr)
+                goto truncated;
             break;
         case SHT_GNU_verdef:
 	    v.verdef = load_data(fd, sh->sh_offset, sh->sh_size);
+	    if (!v.verdef)
+	        goto truncated;
 	    break;
         case SHT_GNU_verneed:
 	    v.verneed = load_data(fd, sh->sh_offset, sh->sh_size);
+	    if (!v.verneed)
+	        goto truncated;
 	    break;
         case SHT_GNU_versym:
             v.nb_versyms = sh->sh_size / sizeof(ElfW(Half));
 	    v.versym = load_data(fd, sh->sh_offset, sh->sh_size);
+	    if (!v.versym)
+	        goto truncated;
 	    break;
         default:
             break;
@@ -3756,8 +3797,11 @@ static int ld_inp(TCCState *s1)
         s1->cc = -1;
         return c;
     }
-    if (1 == read(s1->fd, &b, 1))
+    int len = read(s1->fd, &b, 1);
+    if (len == 1)
         return b;
+    if (len < 0)
+        tcc_error_noabort("read error: %s", strerror(errno));
     return CH_EOF;
 }
 
@@ -3970,14 +4014,14 @@ ST_FUNC int tcc_load_ldscript(TCCState *s1, int fd)
 {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret, nb_errors = s1->nb_errors;
 
     s1->fd = fd;
     s1->cc = -1;
     for(;;) {
         t = ld_next(s1, cmd, sizeof(cmd));
         if (t == LD_TOK_EOF)
-            return 0;
+            return s1->nb_errors > nb_errors ? -1 : 0;
         else if (t != LD_TOK_NAME)
             return -1;
         if (!strcmp(cmd, "INPUT") ||
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..2299c80 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -654,7 +654,7 @@ static int handle_eob(void)
 #endif
             len = read(bf->fd, bf->buffer, len);
             if (len < 0)
-                len = 0;
+                tcc_error("cannot read '%s': %s", bf->filename, strerror(errno));
         } else {
             len = 0;
         }
@@ -1423,6 +1423,9 @@ static int parse_include(TCCState *s1, int do_next, int test)
         }
         if (tcc_open(s1, buf) >= 0)
             break;
+        /* do not go on to take another file with the same name */
+        if (errno != ENOENT && errno != ENOTDIR)
+            tcc_error("cannot open '%s': %s", buf, strerror(errno));
     }
 
     if (test) {
diff --git a/src/cjit.c b/src/cjit.c
index 46ce7ea..be3b80e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -241,7 +241,8 @@ static bool cjit_setup(CJITState *cjit) {
 		return(false);
 	}
 #endif
-	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
+	if(tcc_set_output_type(tcc(cjit), cjit->tcc_output)<0)
+		return(false);
 #if defined(LIBC_MUSL)
 	tcc_add_libc_symbols(tcc(cjit));
 #endif
@@ -558,14 +559,18 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		_err("filename has wrong extension");
 		return false;
 	}
+	int res;
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
-				cjit->output_filename);
+		res = tcc_output_file(tcc(cjit),
+				      cjit->output_filename);
 	} else {
 		char *ext;
 		size_t extlen;
@@ -579,10 +584,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
@@ -599,8 +604,9 @@ int cjit_link(CJITState *cjit) {
 	int found = resolve_libs(cjit);
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
-		if(f) {
-			tcc_add_file(tcc(cjit), f);
+		if(f && tcc_add_file(tcc(cjit), f)<0) {
+			_err("%s: error: %s",__func__, f);
+			return -1;
 		}
 	}
 	debug(" -o %s",cjit->output_filename);
@@ -623,7 +629,10 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
 			debug(" +file: %s",f);
-			tcc_add_file(tcc(cjit), f);
+			if(tcc_add_file(tcc(cjit), f)<0) {
+				_err("%s: error: %s",__func__, f);
+				return -1;
+			}
 		}
 	}
 	int res = 1;
-- 
2.43.0


From 4648fb1e201f5ee769f71ae1af75a58895b637cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 06/42] fix: read source from standard input completely or fail

---
 src/file.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/file.c b/src/file.c
index 37f357d..730bdf2 100644
--- a/src/file.c
+++ b/src/file.c
@@ -87,27 +87,34 @@ char *load_stdin() {
 	return NULL;
 #else
 	char *code = NULL;
-	char *line = NULL;
-	size_t len = 0;
-	ssize_t rd;
+	size_t alloc = 0;
+	size_t size = 0;
+	size_t rd;
 	fflush(stdout);
 	fflush(stderr);
 	while(1) {
-		rd = getline(&line, &len, stdin);
-		if(rd == -1) { // ctrl+d
-			free(line);
-			break;
+		if(alloc - size < 2) {
+			alloc = alloc ? alloc*2 : 4096;
+			char *tmp = realloc(code, alloc);
+			if (!tmp) {
+				fail("malloc error");
+				free(code);
+				return NULL;
+			}
+			code = tmp;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
-			fail("malloc error");
-			free(line);
-			return NULL;
-		}
-		strcat(code, line);
-		free(line);
-		line = NULL;
+		rd = fread(code+size, 1, alloc-size-1, stdin);
+		size += rd;
+		if(ferror(stdin)) {
+			if(errno != EINTR) {
+				fail("stdin");
+				free(code);
+				return NULL;
+			}
+			clearerr(stdin);
+		} else if(rd == 0) break; // ctrl+d
 	}
+	code[size] = 0x0;
 	return(code);
 #endif
 }
-- 
2.43.0


From 2d4d18ccdb83cb4935972b6ac16d5a96f6f5f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 07/42] fix: start, wait for and report programs reliably

---
 src/cjit.c | 92 ++++++++++++++++++++++++++++++------------------------
 src/cjit.h |  6 ++--
 src/main.c | 12 +++----
 3 files changed, 61 insertions(+), 49 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index be3b80e..c5f2bb9 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -39,7 +39,7 @@
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
 // declared at bottom
-void _out(const char *fmt, ...);
+bool _out(const char *fmt, ...);
 void _err(const char *fmt, ...);
 
 // from win-compat.c
@@ -613,6 +613,24 @@ int cjit_link(CJITState *cjit) {
 	return( tcc_output_file(tcc(cjit),cjit->output_filename));
 }
 
+// writes the id of the calling process
+static bool write_pid_file(const char *path) {
+	FILE *fd = fopen(path, "w");
+	bool res = true;
+	if(!fd) {
+		fail(path);
+		_err("Cannot create pid file");
+		return false;
+	}
+	if(fprintf(fd,"%d\n",(int)getpid()) < 0) res = false;
+	if(fclose(fd) != 0) res = false;
+	if(!res) {
+		fail(path);
+		_err("Cannot write pid file");
+	}
+	return res;
+}
+
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if(!cjit->done_setup) {
 		_err("%s: no source code found",__func__);
@@ -653,44 +671,35 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		return -1;
 	}
 #if defined(WINDOWS)
-	if(cjit->write_pid) {
-		pid_t pid = getpid();
-		FILE *fd = fopen(cjit->write_pid, "w");
-		if(!fd) {
-			fail(cjit->write_pid);
-			_err("Cannot create pid file");
-			return -1;
-		}
-		fprintf(fd,"%d\n",pid);
-		fclose(fd);
-	}
+	if(cjit->write_pid && !write_pid_file(cjit->write_pid)) return -1;
 	cjit->done_exec = true;
 	res = _ep(argc, argv);
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
 	cjit->done_exec = true;
+	fflush(stdout); // do not let the child flush it once more
 	pid = fork();
+	if (pid < 0) {
+		fail("fork()");
+		_err("Cannot start execution");
+		return -1;
+	}
 	if (pid == 0) {
+		if(cjit->write_pid && !write_pid_file(cjit->write_pid)) exit(1);
 		res = _ep(argc, argv);
 		exit(res);
 	} else {
-		if(cjit->write_pid) {
-			// pid_t pid = getpid();
-			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
-				fail(cjit->write_pid);
-				_err("Cannot create pid file");
-				return -1;
-			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
-		}
 		int status;
-		int ret;
-		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
+		pid_t ret;
+		do {
+			ret = waitpid(pid, &status, 0);
+		} while (ret < 0 && errno == EINTR);
 		if (ret != pid){
-			_err("Wait error in source: %s",cjit->entry);
+			fail("waitpid()");
+			_err("Wait error in source: %s",
+			     cjit->entry?cjit->entry:"main");
+			return -1;
 		}
 		if (WIFEXITED(status)) {
 			res = WEXITSTATUS(status);
@@ -698,12 +707,6 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		} else if (WIFSIGNALED(status)) {
 			res = WTERMSIG(status);
 			_err("Process terminated with signal %d", WTERMSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			//_err("Process has returned %d", WSTOPSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			_err("Process stopped with signal", WSTOPSIG(status));
 		} else {
 			_err("wait: unknown status: %d", status);
 		}
@@ -724,22 +727,23 @@ void cjit_define_symbol(CJITState *cjit, const char *sym, const char *value) {
 	tcc_define_symbol(tcc(cjit),sym,value);
 	if(cjit->verbose)_err("+D %s %s",sym,value?value:"");
 }
-void cjit_add_include_path(CJITState *cjit, const char *path) {
+bool cjit_add_include_path(CJITState *cjit, const char *path) {
 	char *restrict toadd = new_abspath(path);
 	if(!toadd) {
 		_err("%s: absolute path error: %s",__func__,path);
-		return;
+		return(false);
 	}
 	tcc_add_include_path(tcc(cjit), toadd);
 	free(toadd);
 	debug(" -I %s",path);
+	return(true);
 }
 // TODO: temporary, to be reimplemented in linker.c
-void cjit_add_library_path(CJITState *cjit, const char *path) {
+bool cjit_add_library_path(CJITState *cjit, const char *path) {
 	char *restrict toadd = new_abspath(path);
 	if(!toadd) {
 		_err("%s: absolute path error: %s",__func__,path);
-		return;
+		return(false);
 	}
 #if defined(UNIX)
 	add(libpaths,toadd);
@@ -748,6 +752,7 @@ void cjit_add_library_path(CJITState *cjit, const char *path) {
 #endif
 	debug(" -L %s",toadd);
 	free(toadd);
+	return(true);
 }
 // TODO: temporary, to be reimplemented in linker.c
 void cjit_add_library(CJITState *cjit, const char *path) {
@@ -762,16 +767,21 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts) {
 #define MAX_STRING 2040
 
 // stdout message free from context
-void _out(const char *fmt, ...) {
+bool _out(const char *fmt, ...) {
   char msg[MAX_STRING+4];
   va_list args;
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
-  if(write(fileno(stdout), msg, len+1) <0)
+  if(write(fileno(stdout), msg, len+1) != len+1) {
 	  fail("_out()");
+	  return(false);
+  }
+  return(true);
 }
 
 // error message free from context
@@ -782,8 +792,10 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
-  if(write(fileno(stderr),msg,len+1) <0)
-	fail("_err()");
+  // nowhere to report a failure
+  if(write(fileno(stderr),msg,len+1) <0) return;
 }
diff --git a/src/cjit.h b/src/cjit.h
index 30d276b..2bfd79a 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -88,8 +88,8 @@ extern void cjit_free(CJITState *CJIT);
 void cjit_set_output(CJITState *cjit, int output);
 
 void cjit_define_symbol(CJITState *cjit, const char *sym, const char *value);
-void cjit_add_include_path(CJITState *cjit, const char *path);
-void cjit_add_library_path(CJITState *cjit, const char *path);
+bool cjit_add_include_path(CJITState *cjit, const char *path);
+bool cjit_add_library_path(CJITState *cjit, const char *path);
 void cjit_add_library(CJITState *cjit, const char *path);
 void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 
@@ -104,7 +104,7 @@ extern bool cjit_assets(CJITState *cjit, const char *optional_path);
 extern char* file_load(const char *filename, unsigned int *len);
 
 // terminal printing functions
-extern void _out(const char *fmt, ...);
+extern bool _out(const char *fmt, ...);
 extern void _err(const char *fmt, ...);
 
 /////////////
diff --git a/src/main.c b/src/main.c
index b917ebd..751ac32 100644
--- a/src/main.c
+++ b/src/main.c
@@ -134,8 +134,8 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1])
+		 || cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -202,7 +202,7 @@ int main(int argc, char **argv) {
 			  cjit_set_output(CJIT, EXE);
 	  } else if (c == 'L') { // library path
 		  if(CJIT->verbose)_err("arg lib path: %s",opt.arg);
-		  cjit_add_library_path(CJIT, opt.arg);
+		  if(!cjit_add_library_path(CJIT, opt.arg)) goto endgame;
 	  } else if (c == 'l') { // library link
 		  if(CJIT->verbose)_err("arg lib: %s",opt.arg);
 		  cjit_add_library(CJIT, opt.arg);
@@ -211,7 +211,7 @@ int main(int argc, char **argv) {
 		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
-		  cjit_add_include_path(CJIT, opt.arg);
+		  if(!cjit_add_include_path(CJIT, opt.arg)) goto endgame;
 	  } else if (c == 'e') { // entry point (default main)
 		  if(!CJIT->quiet)_err("entry function: %s",opt.arg);
 		  if(CJIT->entry) free(CJIT->entry);
@@ -251,7 +251,7 @@ int main(int argc, char **argv) {
 			  _err("Extracting runtime assets to: %s",opt.arg);
 		  }
 		  res = cjit_assets(CJIT,opt.arg) ? 0 : 1; // arg is optional
-		  if(res == 0) _out("%s",CJIT->tmpdir);
+		  if(res == 0 && !_out("%s",CJIT->tmpdir)) res = 1;
 		  cjit_free(CJIT);
 		  exit(res);
 #endif
@@ -380,7 +380,7 @@ int main(int argc, char **argv) {
   if(CJIT->print_status) cjit_status(CJIT);
   if(CJIT->output_filename) {
 	  _err("Create executable: %s", CJIT->output_filename);
-	  if(cjit_link(CJIT)<0) {
+	  if(cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
-- 
2.43.0


From a3f3fe75311642af724b1dc05bdfae521df7ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 08/42] fix: resolve libraries through links and scripts
 exactly or fail

---
 src/cjit.c      |  11 ++-
 src/elflinker.c | 188 +++++++++++++++++++++++++++---------------------
 src/elflinker.h |   1 +
 src/winlinker.c |   5 +-
 4 files changed, 120 insertions(+), 85 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index c5f2bb9..aba4ff2 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -312,8 +312,11 @@ static bool cjit_setup(CJITState *cjit) {
 #endif
 
 #if defined(UNIX)
-	read_ldsoconf(cjit->libpaths,"/etc/ld.so.conf");
-	read_ldsoconf_dir(cjit->libpaths,"/etc/ld.so.conf.d");
+	if(!read_ldsoconf(cjit->libpaths,"/etc/ld.so.conf")
+	   || !read_ldsoconf_dir(cjit->libpaths,"/etc/ld.so.conf.d")) {
+		_err("Error reading library paths");
+		return(false);
+	}
 #endif
 
 	cjit->done_setup = true;
@@ -380,7 +383,7 @@ bool cjit_status(CJITState *cjit) {
 			for(i=0;i<used;i++)
 				_err("+ %s",XArray_GetData(cjit->libs,i));
 		}
-		resolve_libs(cjit);
+		if(resolve_libs(cjit)<0) return false;
 		used = XArray_Used(cjit->reallibs);
 		if(used) {
 			_err("Lib files (%u)",used);
@@ -602,6 +605,7 @@ int cjit_link(CJITState *cjit) {
 	}
 	// resolve library files on UNIX systems
 	int found = resolve_libs(cjit);
+	if(found<0) return -1;
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f && tcc_add_file(tcc(cjit), f)<0) {
@@ -643,6 +647,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	debug("resolve paths to library files (%i)",
 		  XArray_Used(cjit->libs));
 	int found = resolve_libs(cjit);
+	if(found<0) return -1;
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..f917227 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -54,10 +54,12 @@ static int resolve_ldscript(LDState *s1, char *path);
 static int find_library(CJITState *cjit, const char *path);
 
 bool read_ldsoconf(xarray_t *dest, char *path) {
+	bool res = true;
 	FILE *file = fopen(path, "r");
 	if (!file) {
+		bool optional = errno == ENOENT || errno == EACCES;
 		fail(path);
-		return false;
+		return(optional);
 	}
 	// TODO: optimize by allocating the buffer inside a xarray data
 	// struct to avoid double memcpy
@@ -68,40 +70,52 @@ bool read_ldsoconf(xarray_t *dest, char *path) {
 		size_t len = strlen(line);
 		if(line[len-1]=='\n') line[len-1]=0x0;
 		// add the line to the result array
-		XArray_AddData(dest,line,len+1);
+		if(XArray_AddData(dest,line,len+1) < 0) {
+			res = false;
+			break;
+		}
 	}
+	if (ferror(file)) res = false;
+	if (!res) fail(path);
 	fclose(file);
-    return true;
+	return res;
 }
 
 bool read_ldsoconf_dir(xarray_t *dest, const char *directory) {
     struct dirent **namelist;
+    struct stat info;
     char path[MAX_PATH];
+    bool res = true;
     int n;
 
     // Open the directory and read its sorted contents
     n = scandir(directory, &namelist, NULL, alphasort);
     if (n < 0) {
+        bool optional = errno == ENOENT || errno == EACCES;
         fail(directory);
-        return(false);
+        return(optional);
     }
     // go through sorted filenames
     for (int i = 0; i < n; i++) {
-        if (namelist[i]->d_type == DT_REG) {
-			// Regular files only
-			//  || namelist[i]->d_type == DT_LNK
-			cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
+		bool regular = namelist[i]->d_type == DT_REG;
+		cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
+		if (namelist[i]->d_type == DT_UNKNOWN) // not told by all filesystems
+			regular = lstat(path, &info) == 0 && S_ISREG(info.st_mode);
+		// Regular files only
+		//  || namelist[i]->d_type == DT_LNK
+		if (regular && res) {
 			if(! read_ldsoconf(dest,path) ) {
 				fail(directory);
-				continue;
+				res = false;
 			}
-        }
+		}
         free(namelist[i]);
     }
     free(namelist);
-    return true;
+    return res;
 }
 
+// returns the number of library files found or -1 on error
 int resolve_libs(CJITState *cjit) {
 	char tryfile[PATH_MAX];
 	int i,ii;
@@ -124,6 +138,10 @@ int resolve_libs(CJITState *cjit) {
 				// _err("library found: %s",tryfile);
 				break;
 			}
+			if(found < -1) {
+				_err("Library error: %s",tryfile);
+				return -1;
+			}
 		}
 		if(found!=0)
 			_err("Library not found: lib%s.so",lname);
@@ -132,45 +150,52 @@ int resolve_libs(CJITState *cjit) {
 	return(XArray_Used(cjit->reallibs));
 }
 
+// sets errno when NULL is returned
 static char *new_solve_symlink(const char *path) {
     struct stat statbuf;
 	char *reallib = NULL;
-	if (lstat(path, &statbuf) == -1) {
+	if (stat(path, &statbuf) == -1 || lstat(path, &statbuf) == -1) {
 		// fail(path);
         return NULL;
     }
     if (S_ISLNK(statbuf.st_mode)) {
-		int tlen = strlen(path);
-		char *tpath = malloc(tlen); // ALLOC tpath
-        ssize_t len = readlink(path, tpath, tlen-1);
+		char tpath[PATH_MAX];
+        ssize_t len = readlink(path, tpath, PATH_MAX-1);
         if (len == -1) {
-			free(tpath);
-            fail(path);
 			return NULL;
         }
 		tpath[len] = 0x0;
-		size_t rlen = tlen + len;
-		reallib = malloc(rlen+1); // ALLOC
-		cwk_path_get_dirname(path,&rlen);
+		size_t rlen = 0;
+		if(tpath[0]!='/') cwk_path_get_dirname(path,&rlen);
+		reallib = malloc(rlen+len+1); // ALLOC
+		if(!reallib) return NULL;
 		memcpy(reallib,path,rlen);
 		strcpy(&reallib[rlen],tpath);
-		free(tpath);               // FREE tpath
     } else if (S_ISREG(statbuf.st_mode)) {
 		reallib = malloc(strlen(path)+1); // ALLOC
+		if(!reallib) return NULL;
 		strcpy(reallib,path);
     }
 	if(!reallib) {
 		_err("%s: internal error: %s",__func__,path);
+		errno = ENOENT;
 		return NULL;
 	}
 	return(reallib);
 }
 
+// returns 0 if found, -1 if not found, -2 if found but not readable
 static int find_library(CJITState *cjit, const char *path) {
+	int res = 0;
 	char *reallib = new_solve_symlink(path);
-	if(!reallib) return -1;
+	if(!reallib) {
+		if(errno == ENOENT || errno == ENOTDIR) return -1;
+		fail(path);
+		return -2;
+	}
 	FILE *fd = fopen(reallib,"r");
 	if(!fd) {
+		fail(reallib);
 		free(reallib);
 		return -2;
 	}
@@ -200,31 +225,44 @@ static int find_library(CJITState *cjit, const char *path) {
 							// enough to know if file is a gnu ld
 							// script or not ?
 	}
+	if(ferror(fd)) {
+		fail(reallib);
+		fclose(fd);
+		free(reallib);
+		return -2;
+	}
 	fclose(fd);
 	if(is_ldscript) {
 		LDState s1;
-		int rr;
+		memset(&s1,0x0,sizeof(s1));
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
-		rr = resolve_ldscript(&s1, reallib);
-		if(rr<1)_err("Library not found: %s",reallib);
-	} else {
-		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
+		if(resolve_ldscript(&s1, reallib) != 0) {
+			_err("Library not found: %s",reallib);
+			res = -2;
+		}
+	} else if(XArray_AddData(cjit->reallibs,reallib,strlen(reallib)) < 0) {
+		fail(reallib);
+		res = -2;
 	}
 	free(reallib);
-	return 0;
+	return res;
 }
 
 static int ld_inp(LDState *s1)
 {
-    char b;
+    unsigned char b;
+    ssize_t len;
     if (s1->cc != -1) {
         int c = s1->cc;
         s1->cc = -1;
         return c;
     }
-    if (1 == read(s1->fd, &b, 1))
+    len = read(s1->fd, &b, 1);
+    if (len == 1)
         return b;
+    if (len < 0)
+        s1->failed = true;
     return CH_EOF;
 }
 
@@ -345,29 +383,25 @@ static int ld_next(LDState *s1, char *name, int name_size)
     return c;
 }
 
+// returns 0 unless there is an error, missing files are just reported
 static int ld_add_file(LDState *s1, const char filename[]) {
 	char tryfile[PATH_MAX];
 	int libpaths_num;
 	char *lpath;
     struct stat statbuf;
+	bool found = false;
 	if(cwk_path_is_absolute(filename)) {
-		if (lstat(filename, &statbuf) == -1) {
+		if (stat(filename, &statbuf) == -1) {
+			bool missing = errno == ENOENT || errno == ENOTDIR;
 			fail(filename);
-			return 0;
+			return(missing?0:1);
 		}
-		if (S_ISREG(statbuf.st_mode)) {
-			strcpy(tryfile,filename);
-		} else if (S_ISLNK(statbuf.st_mode)) {
-			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
-			if (len == -1) {
-				fail(filename);
-				return 0;
-			}
-			tryfile[len] = 0x0;
-		} else {
+		if (!S_ISREG(statbuf.st_mode)) {
 			_err("Library file not recognized: %s",filename);
 			return 0;
 		}
+		pstrcpy(tryfile,sizeof(tryfile),filename);
+		found = true;
 	} else {
 		libpaths_num = XArray_Used(s1->libpaths);
 		// search in all paths if lib%s.so exists
@@ -375,28 +409,28 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 		for(int ii=0;ii<libpaths_num;ii++) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
-			if (lstat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
-			if (S_ISLNK(statbuf.st_mode)) {
-				int tlen = strlen(tryfile)+64;
-				char *tpath = malloc(tlen); // ALLOC tpath
-				ssize_t len = readlink(tryfile, tpath, tlen-1);
-				if (len == -1) {
-					free(tpath);
-					fail(tryfile);
-					continue;
-				}
-				tpath[len] = 0x0;
-				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
-				free(tpath);
+			if (stat(tryfile, &statbuf) == -1) {
+				if(errno == ENOENT || errno == ENOTDIR) continue;
+				fail(tryfile);
+				return 1;
+			}
+			if (S_ISREG(statbuf.st_mode)) {
+				found = true;
 				break;
 			}
 			// check ELF BOM in file
 			_err("Library file not recognized: %s",tryfile);
 		}
 	}
-	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
-	return 1;
+	if(!found) {
+		_err("Library not found: %s",filename);
+		return 0;
+	}
+	if(XArray_AddData(s1->libs, tryfile, strlen(tryfile)) < 0) {
+		fail(tryfile);
+		return 1;
+	}
+	return 0;
 }
 
 static int tcc_error_noabort(char *msg) {
@@ -475,10 +509,11 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 }
 
 // fd = open(filename, O_RDONLY | O_BINARY);
+// returns 0 when the whole script is understood
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret = 0;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
@@ -486,23 +521,15 @@ static int resolve_ldscript(LDState *s1, char *path) {
 	}
     s1->fd = fd;
     s1->cc = -1;
-    for(;;) {
+    while(ret == 0) {
         t = ld_next(s1, cmd, sizeof(cmd));
-        if (t == LD_TOK_EOF) {
-			close(fd);
-            return 0;
-		}
-        else if (t != LD_TOK_NAME) {
-			close(fd);
-            return -1;
-		}
-        if (!strcmp(cmd, "INPUT") ||
+        if (t == LD_TOK_EOF)
+            break;
+        else if (t != LD_TOK_NAME)
+            ret = -1;
+        else if (!strcmp(cmd, "INPUT") ||
             !strcmp(cmd, "GROUP")) {
             ret = ld_add_file_list(s1, cmd, 0);
-            if (ret) {
-				close(fd);
-				break;
-			}
         } else if (!strcmp(cmd, "OUTPUT_FORMAT") ||
                    !strcmp(cmd, "TARGET")) {
             /* ignore some commands */
@@ -510,25 +537,26 @@ static int resolve_ldscript(LDState *s1, char *path) {
             if (t != '(') {
 					_err("%s: ( expected while parsing %s",
 						 __func__,path);
-					close(fd);
-					break;
+					ret = -1;
 			}
-            for(;;) {
+            while(ret == 0) {
                 t = ld_next(s1, filename, sizeof(filename));
                 if (t == LD_TOK_EOF) {
 					_err("%s: unexpected end of file in %s",
 						 __func__,path);
-					close(fd);
-					return 0;
+					ret = -1;
                 } else if (t == ')') {
                     break;
                 }
             }
         } else {
-			close(fd);
-            return -1;
+            ret = -1;
         }
     }
+	if(s1->failed) {
+		_err("%s: error reading %s",__func__,path);
+		ret = -1;
+	}
 	close(fd);
     return ret;
 }
diff --git a/src/elflinker.h b/src/elflinker.h
index 6492cf2..e28eb36 100644
--- a/src/elflinker.h
+++ b/src/elflinker.h
@@ -8,6 +8,7 @@ struct LDState {
 	int fd;
 	int new_undef_sym;
 	int static_link;
+	bool failed; // read error
 	xarray_t *libs;
 	xarray_t *libpaths;
 };
diff --git a/src/winlinker.c b/src/winlinker.c
index a443aac..9ad25f0 100644
--- a/src/winlinker.c
+++ b/src/winlinker.c
@@ -51,8 +51,9 @@ int resolve_libs(CJITState *cjit) {
 			snprintf(tryfile,PATH_MAX-2,"%s/%s.dll",lpath,lname);
 			debug("resolve_libs try: %s",tryfile);
 			if (stat(tryfile, &st) == 0) {
-				XArray_AddData(cjit->reallibs,
-							   tryfile,strlen(tryfile));
+				if(XArray_AddData(cjit->reallibs,
+							   tryfile,strlen(tryfile)) < 0)
+					return(-1);
 				debug("library found: %s",tryfile);
 				found=true;
 				break;
-- 
2.43.0


From 0c06692ea226c8709e73c9d35850d59801855302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 09/42] fix: fail cleanly when out of memory

---
 src/cjit.c | 17 ++++++++++++++++-
 src/file.c | 16 ++++++++++------
 src/main.c |  7 +++++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index aba4ff2..1ec3726 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -36,7 +36,10 @@
 #define tcc(cjit) (TCCState*)cjit->TCC
 #define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
-#define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
+#define add(buf,s) do { \
+	if(s==NULL) _err("!!! NULL var added to array: %s","buf"); \
+	else if(XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1)<0) nomem(); \
+	} while(0)
 
 // declared at bottom
 bool _out(const char *fmt, ...);
@@ -50,6 +53,11 @@ extern bool    get_winsdkpath(char *dst, size_t destlen);
 // from file.c
 extern char *new_abspath(const char *path);
 
+static void nomem() {
+	_err("Out of memory");
+	exit(1);
+}
+
 #if !defined(WINDOWS)
 static bool ensure_dir(const char *path) {
 	struct stat info;
@@ -124,6 +132,7 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 	char *tempDir;
 	if(optional_path) {
 		tempDir = malloc(strlen(optional_path)+512);
+		if(!tempDir) nomem();
 		cwk_path_normalize(optional_path,tempDir,strlen(optional_path)+511);
 #if defined(WINDOWS)
 		if (CreateDirectory(tempDir, NULL) == 0) {
@@ -140,6 +149,7 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
+		if(!tempDir) nomem();
 #if defined(WINDOWS)
 		char tempPath[MAX_PATH];
 		char dirname [64];
@@ -178,6 +188,7 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
+	if(!cjit->tmpdir) nomem();
 	strcpy(cjit->tmpdir, tempDir);
 	free(tempDir);
 	return(true);
@@ -191,6 +202,7 @@ static void cjit_tcc_handle_error(void *n, const char *m) {
 CJITState* cjit_new() {
 	CJITState *cjit = NULL;
 	cjit = malloc(sizeof(CJITState));
+	if(!cjit) nomem();
 	memset(cjit,0x0,sizeof(CJITState));
 	// quiet is by default on when cjit's output is redirected
 	// errors will still be printed on stderr
@@ -212,6 +224,8 @@ CJITState* cjit_new() {
 	cjit->libs     = (void*)XArray_New(2, 0);
 	cjit->libpaths = (void*)XArray_New(2, 0);
 	cjit->reallibs = (void*)XArray_New(2, 0);
+	if(!cjit->sources || !cjit->libs
+	   || !cjit->libpaths || !cjit->reallibs) nomem();
 	return(cjit);
 }
 
@@ -582,6 +596,7 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		size_t len;
 		cwk_path_get_basename((char*)path, &basename, &len);
 		tmp = malloc(len+2);
+		if(!tmp) nomem();
 		strncpy(tmp,basename,len+1);
 		cwk_path_get_extension(tmp,(const char**)&ext,&extlen);
 		strcpy(ext,".o");
diff --git a/src/file.c b/src/file.c
index 730bdf2..7fe18b0 100644
--- a/src/file.c
+++ b/src/file.c
@@ -127,7 +127,7 @@ char *new_abspath(const char *path) {
 		// argument is just .
 		if( getcwd(tpath,MAX_PATH) ) {
 			res = malloc(strlen(tpath)+1);
-			strcpy(res,tpath);
+			if(res) strcpy(res,tpath);
 			return(res);
 		}
 	}
@@ -137,10 +137,12 @@ char *new_abspath(const char *path) {
 			return(NULL);
 		}
 		res = malloc(strlen(tpath)+1);
+		if(!res) return(NULL);
 		strcpy(res,tpath);
 		len = cwk_path_get_absolute(res,path,tpath,MAX_PATH);
-		res = realloc(res, len+1);
-		strcpy(res,tpath);
+		free(res);
+		res = malloc(len+1);
+		if(res) strcpy(res,tpath);
 		return(res);
 	}
 	if(path[0]!='/') {
@@ -149,15 +151,17 @@ char *new_abspath(const char *path) {
 			return(NULL);
 		}
 		res = malloc(strlen(tpath)+strlen(path)+16);
+		if(!res) return(NULL);
 		strcpy(res,tpath);
 		len = cwk_path_get_absolute(res,path,tpath,MAX_PATH);
-		res = realloc(res,len+1);
-		strcpy(res,tpath);
+		free(res);
+		res = malloc(len+1);
+		if(res) strcpy(res,tpath);
 		return(res);
 	}
 	len = cwk_path_normalize(path,tpath,MAX_PATH);
 	res = malloc(len+1);
-	strcpy(res,tpath);
+	if(res) strcpy(res,tpath);
 	return(res);
 }
 
diff --git a/src/main.c b/src/main.c
index 751ac32..2e87048 100644
--- a/src/main.c
+++ b/src/main.c
@@ -148,6 +148,7 @@ int main(int argc, char **argv) {
   // clean up argv from ignored args and update argc
   int ignored_count = sizeof(ignored_args) / sizeof(ignored_args[0]);
   char** clean_argv = remove_args(&argc, argv, ignored_args, ignored_count);
+  if(!clean_argv) goto nomem;
 
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
@@ -197,6 +198,7 @@ int main(int argc, char **argv) {
 	  } else if (c == 'o') { // override output filename
 		  if(CJIT->output_filename) free(CJIT->output_filename);
 		  CJIT->output_filename = malloc(strlen(opt.arg)+1);
+		  if(!CJIT->output_filename) goto nomem;
 		  strcpy(CJIT->output_filename,opt.arg);
 		  if(!CJIT->output_obj) // don't overwrite output_obj mode
 			  cjit_set_output(CJIT, EXE);
@@ -216,12 +218,14 @@ int main(int argc, char **argv) {
 		  if(!CJIT->quiet)_err("entry function: %s",opt.arg);
 		  if(CJIT->entry) free(CJIT->entry);
 		  CJIT->entry = malloc(strlen(opt.arg)+1);
+		  if(!CJIT->entry) goto nomem;
 		  strcpy(CJIT->entry,opt.arg);
 	  } else if (c == 'p') { // write pid to file
 		  if(strcmp(opt.arg,"edantic")!=0) { // ignore -pedantic
 			  if(!CJIT->quiet)_err("pid file: %s",opt.arg);
 			  if(CJIT->write_pid) free(CJIT->write_pid);
 			  CJIT->write_pid = malloc(strlen(opt.arg)+1);
+			  if(!CJIT->write_pid) goto nomem;
 			  strcpy(CJIT->write_pid,opt.arg);
 		  }
 #if defined(SELFHOST)
@@ -398,6 +402,9 @@ int main(int argc, char **argv) {
   // free TCC
   cjit_free(CJIT);
   exit(res);
+  nomem:
+  _err("Out of memory");
+  exit(1);
 }
 
 char** remove_args(int* argc, char** argv,
-- 
2.43.0


From ade75e648a28a2a1cf24426e1b67d4a10f34520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 10/42] fix: archives are complete and exact or ar fails

---
 lib/tinycc/tcctools.c | 225 ++++++++++++++++++++++++++++--------------
 src/cjit-ar.c         | 225 ++++++++++++++++++++++++++++--------------
 2 files changed, 302 insertions(+), 148 deletions(-)

diff --git a/lib/tinycc/tcctools.c b/lib/tinycc/tcctools.c
index 5eb4349..9d5f9fe 100644
--- a/lib/tinycc/tcctools.c
+++ b/lib/tinycc/tcctools.c
@@ -84,12 +84,13 @@ ST_FUNC int tcc_tool_ar(TCCState *s1, int argc, char **argv)
     FILE *fi, *fh = NULL, *fo = NULL;
     const char *created_file = NULL; // must delete on error
     ElfW(Ehdr) *ehdr;
-    ElfW(Shdr) *shdr;
+    ElfW(Shdr) *shdr, *strsec;
     ElfW(Sym) *sym;
     int i, fsize, i_lib, i_obj;
-    char *buf, *shstr, *symtab = NULL, *strtab = NULL;
-    int symtabsize = 0;//, strtabsize = 0;
+    char *buf = NULL, *strtab;
     char *anames = NULL;
+    char *lnames = NULL; // table of long member names
+    int lsize = 0;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
     char tfile[260], stmp[20];
@@ -135,14 +136,13 @@ ST_FUNC int tcc_tool_ar(TCCState *s1, int argc, char **argv)
             fprintf(stderr, "tcc: ar: can't open file %s\n", argv[i_lib]);
             goto finish;
         }
-        fread(stmp, 1, 8, fh);
-	if (memcmp(stmp,ARMAG,8))
+	if (fread(stmp, 1, 8, fh) != 8 || memcmp(stmp,ARMAG,8))
 	{
 no_ar:
             fprintf(stderr, "tcc: ar: not an ar archive %s\n", argv[i_lib]);
             goto finish;
 	}
-	while (fread(&arhdr, 1, sizeof(arhdr), fh) == sizeof(arhdr)) {
+	while ((i = fread(&arhdr, 1, sizeof(arhdr), fh)) == sizeof(arhdr)) {
 	    char *p, *e;
 
 	    if (memcmp(arhdr.ar_fmag, ARFMAG, 2))
@@ -150,34 +150,71 @@ no_ar:
 	    p = arhdr.ar_name;
 	    for (e = p + sizeof arhdr.ar_name; e > p && e[-1] == ' ';)
 		e--;
-	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    *e = '\0';
+	    if (fsize < 0)
+		goto no_ar;
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
-	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
+	    if (fread(buf, 1, fsize, fh) != fsize)
+		goto truncated;
+	    if (fsize & 1)
+		fgetc(fh); // padding
+	    if (!strcmp(p, "//")) {
+		tcc_free(lnames);
+		buf[fsize] = '\0';
+		lnames = buf, lsize = fsize, buf = NULL;
+		continue;
+	    }
+	    if (strcmp(p, "/") && strcmp(p, "/SYM64/")) {
+		if (p[0] == '/' && lnames) { // offset in table of long names
+		    i = atoi(p + 1);
+		    if (i < 0 || i >= lsize)
+			goto no_ar;
+		    p = lnames + i;
+		    if ((e = strchr(p, '\n')))
+			*e = '\0';
+		    e = strchr(p, 0);
+		}
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
 		/* tv not implemented */
 	        if (table || verbose)
-		    printf("%s%s\n", extract ? "x - " : "", arhdr.ar_name);
+		    printf("%s%s\n", extract ? "x - " : "", p);
 		if (extract) {
-		    if ((fo = fopen(arhdr.ar_name, "wb")) == NULL)
+		    if ((fo = fopen(p, "wb")) == NULL)
 		    {
-			fprintf(stderr, "tcc: ar: can't create file %s\n",
-				arhdr.ar_name);
-		        tcc_free(buf);
+			fprintf(stderr, "tcc: ar: can't create file %s\n", p);
+			goto finish;
+		    }
+		    i = fwrite(buf, 1, fsize, fo) != fsize;
+		    if (fclose(fo) || i)
+		    {
+			fprintf(stderr, "tcc: ar: can't write file %s\n", p);
+			remove(p);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
 		    /* ignore date/uid/gid/mode */
 		}
+		if (p != arhdr.ar_name)
+		    *strchr(p, 0) = '/';
 	    }
             tcc_free(buf);
+            buf = NULL;
+	}
+	if (i || ferror(fh)) {
+truncated:
+	    fprintf(stderr, "tcc: ar: unreadable or truncated archive %s\n", argv[i_lib]);
+	    goto finish;
+	}
+	if (fflush(stdout)) {
+	    fprintf(stderr, "tcc: ar: can't write to standard output\n");
+	    goto finish;
 	}
 	ret = 0;
 finish:
+	tcc_free(buf);
+	tcc_free(lnames);
 	if (fh)
 		fclose(fh);
 	return ret;
@@ -190,8 +227,8 @@ finish:
     }
     created_file = argv[i_lib];
 
-    sprintf(tfile, "%s.tmp", argv[i_lib]);
-    if ((fo = fopen(tfile, "wb+")) == NULL)
+    if (snprintf(tfile, sizeof tfile, "%s.tmp", argv[i_lib]) >= sizeof tfile
+        || (fo = fopen(tfile, "wb+")) == NULL)
     {
         fprintf(stderr, "tcc: ar: can't create temporary file %s\n", tfile);
         goto the_end;
@@ -218,47 +255,54 @@ finish:
         fseek(fi, 0, SEEK_END);
         fsize = ftell(fi);
         fseek(fi, 0, SEEK_SET);
-        buf = tcc_malloc(fsize + 1);
-        fread(buf, fsize, 1, fi);
+        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+        i = fsize < 0 || fread(buf, 1, fsize, fi) != fsize;
         fclose(fi);
+        if (i) {
+            fprintf(stderr, "tcc: ar: can't read file %s\n", argv[i_obj]);
+            goto the_end;
+        }
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-        if (ehdr->e_ident[4] != ELFCLASSW)
+        if (fsize < sizeof *ehdr || memcmp(buf, ELFMAG, SELFMAG)
+            || ehdr->e_ident[4] != ELFCLASSW)
         {
             fprintf(stderr, "tcc: ar: Unsupported Elf Class: %s\n", argv[i_obj]);
             goto the_end;
         }
 
-        shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
-        shstr = (char *)(buf + shdr->sh_offset);
+        // every section must be inside of the file
+        if (ehdr->e_shoff > fsize || ehdr->e_shentsize < sizeof *shdr
+            || ehdr->e_shnum * ehdr->e_shentsize > fsize - ehdr->e_shoff)
+        {
+bad_object:
+            fprintf(stderr, "tcc: ar: malformed object file: %s\n", argv[i_obj]);
+            goto the_end;
+        }
         for (i = 0; i < ehdr->e_shnum; i++)
         {
+            int j, nsym;
             shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + i * ehdr->e_shentsize);
-            if (!shdr->sh_offset)
+            if (shdr->sh_type == SHT_NULL || shdr->sh_type == SHT_NOBITS)
                 continue;
-            if (shdr->sh_type == SHT_SYMTAB)
-            {
-                symtab = (char *)(buf + shdr->sh_offset);
-                symtabsize = shdr->sh_size;
-            }
-            if (shdr->sh_type == SHT_STRTAB)
-            {
-                if (!strcmp(shstr + shdr->sh_name, ".strtab"))
-                {
-                    strtab = (char *)(buf + shdr->sh_offset);
-                    //strtabsize = shdr->sh_size;
-                }
-            }
-        }
-
-        if (symtab && symtabsize)
-        {
-            int nsym = symtabsize / sizeof(ElfW(Sym));
+            if (shdr->sh_offset > fsize || shdr->sh_size > fsize - shdr->sh_offset)
+                goto bad_object;
+            if (shdr->sh_type != SHT_SYMTAB)
+                continue;
+            if (shdr->sh_link >= ehdr->e_shnum)
+                goto bad_object;
+            strsec = (ElfW(Shdr) *) (buf + ehdr->e_shoff + shdr->sh_link * ehdr->e_shentsize);
+            if (strsec->sh_offset > fsize || strsec->sh_size > fsize - strsec->sh_offset)
+                goto bad_object;
+            strtab = buf + strsec->sh_offset;
+            nsym = shdr->sh_size / sizeof(ElfW(Sym));
+            if (nsym && (!strsec->sh_size || strtab[strsec->sh_size - 1]))
+                goto bad_object;
             //printf("symtab: info size shndx name\n");
-            for (i = 1; i < nsym; i++)
+            for (j = 1; j < nsym; j++)
             {
-                sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
+                sym = (ElfW(Sym) *) (buf + shdr->sh_offset + j * sizeof(ElfW(Sym)));
                 if (sym->st_shndx &&
                     (sym->st_info == 0x10
                     || sym->st_info == 0x11
@@ -268,6 +312,8 @@ finish:
                     || sym->st_info == 0x22
                     )) {
                     //printf("symtab: %2Xh %4Xh %2Xh %s\n", sym->st_info, sym->st_size, sym->st_shndx, strtab + sym->st_name);
+                    if (sym->st_name >= strsec->sh_size)
+                        goto bad_object;
                     istrlen = strlen(strtab + sym->st_name)+1;
                     anames = tcc_realloc(anames, strpos+istrlen);
                     strcpy(anames + strpos, strtab + sym->st_name);
@@ -286,54 +332,85 @@ finish:
              name > file && name[-1] != '/' && name[-1] != '\\';
              --name);
         istrlen = strlen(name);
-        if (istrlen >= sizeof(arhdro.ar_name))
-            istrlen = sizeof(arhdro.ar_name) - 1;
         memset(arhdro.ar_name, ' ', sizeof(arhdro.ar_name));
-        memcpy(arhdro.ar_name, name, istrlen);
-        arhdro.ar_name[istrlen] = '/';
+        if (istrlen >= sizeof(arhdro.ar_name)) {
+            // refer to table of long names
+            lnames = tcc_realloc(lnames, lsize + istrlen + 3);
+            sprintf(stmp, "/%d", lsize);
+            memcpy(arhdro.ar_name, stmp, strlen(stmp));
+            sprintf(lnames + lsize, "%s/\n", name);
+            lsize += istrlen + 2;
+        } else {
+            memcpy(arhdro.ar_name, name, istrlen);
+            arhdro.ar_name[istrlen] = '/';
+        }
         sprintf(stmp, "%-10d", fsize);
         memcpy(&arhdro.ar_size, stmp, 10);
         fwrite(&arhdro, sizeof(arhdro), 1, fo);
         fwrite(buf, fsize, 1, fo);
+        fpos += (fsize + sizeof(arhdro));
+        if (fsize & 1)
+            fputc('\n', fo), fpos++;
         tcc_free(buf);
+        buf = NULL;
         i_obj++;
-        fpos += (fsize + sizeof(arhdro));
     }
-    hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
-    fpos = 0;
-    if ((hofs & 1)) // align
-        hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    // create an empty archive
-    if (!funccnt) {
-        ret = 0;
+    // anything else than an empty archive
+    if (fpos) {
+        hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
+        fpos = 0;
+        if ((hofs & 1)) // align
+            hofs++, fpos = 1;
+        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+        memcpy(&arhdr.ar_size, stmp, 10);
+        if (lsize & 1)
+            lnames[lsize++] = '\n';
+        if (lsize)
+            hofs += sizeof(arhdr) + lsize;
+        fwrite(&arhdr, sizeof(arhdr), 1, fh);
+        afpos[0] = le2belong(funccnt);
+        for (i=1; i<=funccnt; i++)
+            afpos[i] = le2belong(afpos[i] + hofs);
+        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+        fwrite(anames, strpos, 1, fh);
+        if (fpos)
+            fwrite("", 1, 1, fh);
+        if (lsize) {
+            arhdr = arhdr_init;
+            arhdr.ar_name[1] = '/';
+            sprintf(stmp, "%-10d", lsize);
+            memcpy(&arhdr.ar_size, stmp, 10);
+            fwrite(&arhdr, sizeof(arhdr), 1, fh);
+            fwrite(lnames, lsize, 1, fh);
+        }
+        // write objects
+        fseek(fo, 0, SEEK_END);
+        fsize = ftell(fo);
+        fseek(fo, 0, SEEK_SET);
+        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+        if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
+            fprintf(stderr, "tcc: ar: error in temporary file %s\n", tfile);
+            goto the_end;
+        }
+        fwrite(buf, fsize, 1, fh);
+    }
+    i = ferror(fh);
+    if (fclose(fh) || i) {
+        fprintf(stderr, "tcc: ar: can't write file %s\n", argv[i_lib]);
+        fh = NULL;
         goto the_end;
     }
-    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-    memcpy(&arhdr.ar_size, stmp, 10);
-    fwrite(&arhdr, sizeof(arhdr), 1, fh);
-    afpos[0] = le2belong(funccnt);
-    for (i=1; i<=funccnt; i++)
-        afpos[i] = le2belong(afpos[i] + hofs);
-    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
-    if (fpos)
-        fwrite("", 1, 1, fh);
-    // write objects
-    fseek(fo, 0, SEEK_END);
-    fsize = ftell(fo);
-    fseek(fo, 0, SEEK_SET);
-    buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
-    fwrite(buf, fsize, 1, fh);
-    tcc_free(buf);
+    fh = NULL;
     ret = 0;
 the_end:
     if (anames)
         tcc_free(anames);
     if (afpos)
         tcc_free(afpos);
+    tcc_free(lnames);
+    tcc_free(buf);
     if (fh)
         fclose(fh);
     if (created_file && ret != 0)
diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..127b583 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -82,12 +82,13 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     FILE *fi, *fh = NULL, *fo = NULL;
     const char *created_file = NULL; // must delete on error
     ElfW(Ehdr) *ehdr;
-    ElfW(Shdr) *shdr;
+    ElfW(Shdr) *shdr, *strsec;
     ElfW(Sym) *sym;
     int i, fsize, i_lib, i_obj;
-    char *buf, *shstr, *symtab = NULL, *strtab = NULL;
-    int symtabsize = 0;//, strtabsize = 0;
+    char *buf = NULL, *strtab;
     char *anames = NULL;
+    char *lnames = NULL; // table of long member names
+    int lsize = 0;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
     char tfile[260], stmp[20];
@@ -133,14 +134,13 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
             fprintf(stderr, "cjit-ar: can't open file %s\n", argv[i_lib]);
             goto finish;
         }
-        fread(stmp, 1, 8, fh);
-	if (memcmp(stmp,ARMAG,8))
+	if (fread(stmp, 1, 8, fh) != 8 || memcmp(stmp,ARMAG,8))
 	{
 no_ar:
             fprintf(stderr, "cjit-ar: not an ar archive %s\n", argv[i_lib]);
             goto finish;
 	}
-	while (fread(&arhdr, 1, sizeof(arhdr), fh) == sizeof(arhdr)) {
+	while ((i = fread(&arhdr, 1, sizeof(arhdr), fh)) == sizeof(arhdr)) {
 	    char *p, *e;
 
 	    if (memcmp(arhdr.ar_fmag, ARFMAG, 2))
@@ -148,34 +148,71 @@ no_ar:
 	    p = arhdr.ar_name;
 	    for (e = p + sizeof arhdr.ar_name; e > p && e[-1] == ' ';)
 		e--;
-	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    *e = '\0';
+	    if (fsize < 0)
+		goto no_ar;
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
-	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
+	    if (fread(buf, 1, fsize, fh) != fsize)
+		goto truncated;
+	    if (fsize & 1)
+		fgetc(fh); // padding
+	    if (!strcmp(p, "//")) {
+		tcc_free(lnames);
+		buf[fsize] = '\0';
+		lnames = buf, lsize = fsize, buf = NULL;
+		continue;
+	    }
+	    if (strcmp(p, "/") && strcmp(p, "/SYM64/")) {
+		if (p[0] == '/' && lnames) { // offset in table of long names
+		    i = atoi(p + 1);
+		    if (i < 0 || i >= lsize)
+			goto no_ar;
+		    p = lnames + i;
+		    if ((e = strchr(p, '\n')))
+			*e = '\0';
+		    e = strchr(p, 0);
+		}
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
 		/* tv not implemented */
 	        if (table || verbose)
-		    printf("%s%s\n", extract ? "x - " : "", arhdr.ar_name);
+		    printf("%s%s\n", extract ? "x - " : "", p);
 		if (extract) {
-		    if ((fo = fopen(arhdr.ar_name, "wb")) == NULL)
+		    if ((fo = fopen(p, "wb")) == NULL)
 		    {
-			fprintf(stderr, "cjit-ar: can't create file %s\n",
-				arhdr.ar_name);
-		        tcc_free(buf);
+			fprintf(stderr, "cjit-ar: can't create file %s\n", p);
+			goto finish;
+		    }
+		    i = fwrite(buf, 1, fsize, fo) != fsize;
+		    if (fclose(fo) || i)
+		    {
+			fprintf(stderr, "cjit-ar: can't write file %s\n", p);
+			remove(p);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
 		    /* ignore date/uid/gid/mode */
 		}
+		if (p != arhdr.ar_name)
+		    *strchr(p, 0) = '/';
 	    }
             tcc_free(buf);
+            buf = NULL;
+	}
+	if (i || ferror(fh)) {
+truncated:
+	    fprintf(stderr, "cjit-ar: unreadable or truncated archive %s\n", argv[i_lib]);
+	    goto finish;
+	}
+	if (fflush(stdout)) {
+	    fprintf(stderr, "cjit-ar: can't write to standard output\n");
+	    goto finish;
 	}
 	ret = 0;
 finish:
+	tcc_free(buf);
+	tcc_free(lnames);
 	if (fh)
 		fclose(fh);
 	return ret;
@@ -188,8 +225,8 @@ finish:
     }
     created_file = argv[i_lib];
 
-    sprintf(tfile, "%s.tmp", argv[i_lib]);
-    if ((fo = fopen(tfile, "wb+")) == NULL)
+    if (snprintf(tfile, sizeof tfile, "%s.tmp", argv[i_lib]) >= sizeof tfile
+        || (fo = fopen(tfile, "wb+")) == NULL)
     {
         fprintf(stderr, "cjit-ar: can't create temporary file %s\n", tfile);
         goto the_end;
@@ -216,47 +253,54 @@ finish:
         fseek(fi, 0, SEEK_END);
         fsize = ftell(fi);
         fseek(fi, 0, SEEK_SET);
-        buf = tcc_malloc(fsize + 1);
-        fread(buf, fsize, 1, fi);
+        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+        i = fsize < 0 || fread(buf, 1, fsize, fi) != fsize;
         fclose(fi);
+        if (i) {
+            fprintf(stderr, "cjit-ar: can't read file %s\n", argv[i_obj]);
+            goto the_end;
+        }
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-        if (ehdr->e_ident[4] != ELFCLASSW)
+        if (fsize < sizeof *ehdr || memcmp(buf, ELFMAG, SELFMAG)
+            || ehdr->e_ident[4] != ELFCLASSW)
         {
             fprintf(stderr, "cjit-ar: Unsupported Elf Class: %s\n", argv[i_obj]);
             goto the_end;
         }
 
-        shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
-        shstr = (char *)(buf + shdr->sh_offset);
+        // every section must be inside of the file
+        if (ehdr->e_shoff > fsize || ehdr->e_shentsize < sizeof *shdr
+            || ehdr->e_shnum * ehdr->e_shentsize > fsize - ehdr->e_shoff)
+        {
+bad_object:
+            fprintf(stderr, "cjit-ar: malformed object file: %s\n", argv[i_obj]);
+            goto the_end;
+        }
         for (i = 0; i < ehdr->e_shnum; i++)
         {
+            int j, nsym;
             shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + i * ehdr->e_shentsize);
-            if (!shdr->sh_offset)
+            if (shdr->sh_type == SHT_NULL || shdr->sh_type == SHT_NOBITS)
                 continue;
-            if (shdr->sh_type == SHT_SYMTAB)
-            {
-                symtab = (char *)(buf + shdr->sh_offset);
-                symtabsize = shdr->sh_size;
-            }
-            if (shdr->sh_type == SHT_STRTAB)
-            {
-                if (!strcmp(shstr + shdr->sh_name, ".strtab"))
-                {
-                    strtab = (char *)(buf + shdr->sh_offset);
-                    //strtabsize = shdr->sh_size;
-                }
-            }
-        }
-
-        if (symtab && symtabsize)
-        {
-            int nsym = symtabsize / sizeof(ElfW(Sym));
+            if (shdr->sh_offset > fsize || shdr->sh_size > fsize - shdr->sh_offset)
+                goto bad_object;
+            if (shdr->sh_type != SHT_SYMTAB)
+                continue;
+            if (shdr->sh_link >= ehdr->e_shnum)
+                goto bad_object;
+            strsec = (ElfW(Shdr) *) (buf + ehdr->e_shoff + shdr->sh_link * ehdr->e_shentsize);
+            if (strsec->sh_offset > fsize || strsec->sh_size > fsize - strsec->sh_offset)
+                goto bad_object;
+            strtab = buf + strsec->sh_offset;
+            nsym = shdr->sh_size / sizeof(ElfW(Sym));
+            if (nsym && (!strsec->sh_size || strtab[strsec->sh_size - 1]))
+                goto bad_object;
             //printf("symtab: info size shndx name\n");
-            for (i = 1; i < nsym; i++)
+            for (j = 1; j < nsym; j++)
             {
-                sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
+                sym = (ElfW(Sym) *) (buf + shdr->sh_offset + j * sizeof(ElfW(Sym)));
                 if (sym->st_shndx &&
                     (sym->st_info == 0x10
                     || sym->st_info == 0x11
@@ -266,6 +310,8 @@ finish:
                     || sym->st_info == 0x22
                     )) {
                     //printf("symtab: %2Xh %4Xh %2Xh %s\n", sym->st_info, sym->st_size, sym->st_shndx, strtab + sym->st_name);
+                    if (sym->st_name >= strsec->sh_size)
+                        goto bad_object;
                     istrlen = strlen(strtab + sym->st_name)+1;
                     anames = tcc_realloc(anames, strpos+istrlen);
                     strcpy(anames + strpos, strtab + sym->st_name);
@@ -284,54 +330,85 @@ finish:
              name > file && name[-1] != '/' && name[-1] != '\\';
              --name);
         istrlen = strlen(name);
-        if (istrlen >= sizeof(arhdro.ar_name))
-            istrlen = sizeof(arhdro.ar_name) - 1;
         memset(arhdro.ar_name, ' ', sizeof(arhdro.ar_name));
-        memcpy(arhdro.ar_name, name, istrlen);
-        arhdro.ar_name[istrlen] = '/';
+        if (istrlen >= sizeof(arhdro.ar_name)) {
+            // refer to table of long names
+            lnames = tcc_realloc(lnames, lsize + istrlen + 3);
+            sprintf(stmp, "/%d", lsize);
+            memcpy(arhdro.ar_name, stmp, strlen(stmp));
+            sprintf(lnames + lsize, "%s/\n", name);
+            lsize += istrlen + 2;
+        } else {
+            memcpy(arhdro.ar_name, name, istrlen);
+            arhdro.ar_name[istrlen] = '/';
+        }
         sprintf(stmp, "%-10d", fsize);
         memcpy(&arhdro.ar_size, stmp, 10);
         fwrite(&arhdro, sizeof(arhdro), 1, fo);
         fwrite(buf, fsize, 1, fo);
+        fpos += (fsize + sizeof(arhdro));
+        if (fsize & 1)
+            fputc('\n', fo), fpos++;
         tcc_free(buf);
+        buf = NULL;
         i_obj++;
-        fpos += (fsize + sizeof(arhdro));
     }
-    hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
-    fpos = 0;
-    if ((hofs & 1)) // align
-        hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    // create an empty archive
-    if (!funccnt) {
-        ret = 0;
+    // anything else than an empty archive
+    if (fpos) {
+        hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
+        fpos = 0;
+        if ((hofs & 1)) // align
+            hofs++, fpos = 1;
+        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+        memcpy(&arhdr.ar_size, stmp, 10);
+        if (lsize & 1)
+            lnames[lsize++] = '\n';
+        if (lsize)
+            hofs += sizeof(arhdr) + lsize;
+        fwrite(&arhdr, sizeof(arhdr), 1, fh);
+        afpos[0] = le2belong(funccnt);
+        for (i=1; i<=funccnt; i++)
+            afpos[i] = le2belong(afpos[i] + hofs);
+        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+        fwrite(anames, strpos, 1, fh);
+        if (fpos)
+            fwrite("", 1, 1, fh);
+        if (lsize) {
+            arhdr = arhdr_init;
+            arhdr.ar_name[1] = '/';
+            sprintf(stmp, "%-10d", lsize);
+            memcpy(&arhdr.ar_size, stmp, 10);
+            fwrite(&arhdr, sizeof(arhdr), 1, fh);
+            fwrite(lnames, lsize, 1, fh);
+        }
+        // write objects
+        fseek(fo, 0, SEEK_END);
+        fsize = ftell(fo);
+        fseek(fo, 0, SEEK_SET);
+        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+        if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
+            fprintf(stderr, "cjit-ar: error in temporary file %s\n", tfile);
+            goto the_end;
+        }
+        fwrite(buf, fsize, 1, fh);
+    }
+    i = ferror(fh);
+    if (fclose(fh) || i) {
+        fprintf(stderr, "cjit-ar: can't write file %s\n", argv[i_lib]);
+        fh = NULL;
         goto the_end;
     }
-    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-    memcpy(&arhdr.ar_size, stmp, 10);
-    fwrite(&arhdr, sizeof(arhdr), 1, fh);
-    afpos[0] = le2belong(funccnt);
-    for (i=1; i<=funccnt; i++)
-        afpos[i] = le2belong(afpos[i] + hofs);
-    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
-    if (fpos)
-        fwrite("", 1, 1, fh);
-    // write objects
-    fseek(fo, 0, SEEK_END);
-    fsize = ftell(fo);
-    fseek(fo, 0, SEEK_SET);
-    buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
-    fwrite(buf, fsize, 1, fh);
-    tcc_free(buf);
+    fh = NULL;
     ret = 0;
 the_end:
     if (anames)
         tcc_free(anames);
     if (afpos)
         tcc_free(afpos);
+    tcc_free(lnames);
+    tcc_free(buf);
     if (fh)
         fclose(fh);
     if (created_file && ret != 0)
-- 
2.43.0


From e4162f899271e42b896a61a8356b7a92cc49b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 11/42] fix: make -e choose the entry function

The numeric id of --verb, 101, is the character 'e', so -e only turned
verbose logs on and the program started from main.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2e87048..49a4ac3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -154,7 +154,7 @@ int main(int argc, char **argv) {
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
 	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "verb", ko_no_argument, 301 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -176,7 +176,7 @@ int main(int argc, char **argv) {
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==301 ) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From 6b4b027738bce18f5ef410d99f787bb1390f518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 12/42] fix: fail when startup files or parts of objects cannot
 be read

---
 lib/tinycc/libtcc.c |  7 ++++++-
 lib/tinycc/tccelf.c | 15 ++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index e98faf5..80a08c5 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -931,6 +931,8 @@ LIBTCCAPI int tcc_set_output_type(TCCState *s, int output_type)
     tcc_split_path(s, &s->crt_paths, &s->nb_crt_paths, CONFIG_TCC_CRTPREFIX);
     if (output_type != TCC_OUTPUT_MEMORY && !s->nostdlib)
         tccelf_add_crtbegin(s);
+    if (s->nb_errors)
+        return -1;
 #endif
     return 0;
 }
@@ -1029,7 +1031,10 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
         int obj_type;
 
         obj_type = tcc_object_type(fd, &ehdr);
-        lseek(fd, 0, SEEK_SET);
+        if (lseek(fd, 0, SEEK_SET) < 0) {
+            close(fd);
+            return tcc_error_noabort("cannot read '%s': %s", filename, strerror(errno));
+        }
 
         switch (obj_type) {
 
diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 05bf3eb..ba4d321 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3041,8 +3041,8 @@ ST_FUNC void *load_data(int fd, unsigned long file_offset, unsigned long size)
     char *data;
 
     data = tcc_malloc(size + 1); /* never NULL, even if size is 0 */
-    lseek(fd, file_offset, SEEK_SET);
-    if (full_read(fd, data, size) != size) {
+    if (lseek(fd, file_offset, SEEK_SET) < 0
+        || full_read(fd, data, size) != size) {
         tcc_free(data);
         return NULL;
     }
@@ -3094,8 +3094,8 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     ElfW_Rel *rel;
     Section *s;
 
-    lseek(fd, file_offset, SEEK_SET);
-    if (tcc_object_type(fd, &ehdr) != AFF_BINTYPE_REL)
+    if (lseek(fd, file_offset, SEEK_SET) < 0
+        || tcc_object_type(fd, &ehdr) != AFF_BINTYPE_REL)
         goto invalid;
     /* test CPU specific stuff */
     if (ehdr.e_ident[5] != ELFDATA2LSB ||
@@ -3228,9 +3228,9 @@ invalid:
         size = sh->sh_size;
         if (sh->sh_type != SHT_NOBITS) {
             unsigned char *ptr;
-            lseek(fd, file_offset + sh->sh_offset, SEEK_SET);
             ptr = section_ptr_add(s, size);
-            if (full_read(fd, ptr, size) != size) {
+            if (lseek(fd, file_offset + sh->sh_offset, SEEK_SET) < 0
+                || full_read(fd, ptr, size) != size) {
             truncated:
                 tcc_error_noabort("unreadable or truncated object file");
                 goto the_end;
@@ -3403,7 +3403,8 @@ static int read_ar_header(int fd, int offset, ArchiveHeader *hdr)
 {
     char *p, *e;
     int len;
-    lseek(fd, offset, SEEK_SET);
+    if (lseek(fd, offset, SEEK_SET) < 0)
+        return -1;
     len = full_read(fd, hdr, sizeof(ArchiveHeader));
     if (len != sizeof(ArchiveHeader))
         return len ? -1 : 0;
-- 
2.43.0


From 8736439d21310f52ed8a44417edd9d96d11ac692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 13/42] fix: read tar headers strictly and stay below the
 destination

---
 src/muntar.c | 88 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 118d3bb..c452656 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -65,52 +65,66 @@ static unsigned checksum(const mtar_raw_header_t* rh)
 }
 
 /**
- * Decode an octal field.
+ * Decode an octal field, ended by NUL, space or its size.
  */
-static uint64_t decodeTarOctal(
+static int decodeTarOctal(
 	const char* data,
-	size_t size )
+	size_t size,
+	uint64_t* value )
 {
-    uint8_t* currentPtr = (uint8_t*) data + size;
+    size_t i = 0;
+    size_t digits = 0;
     uint64_t sum = 0;
-    uint64_t currentMultiplier = 1;
-
-	/* find then last NUL or space */
-    uint8_t* checkPtr = currentPtr;
-    for (; checkPtr >= (uint8_t*) data; checkPtr--)
-	{
-        if (*checkPtr == 0 || *checkPtr == ' ') currentPtr = checkPtr - 1;
-    }
-	/* decode the octal number */
-    for (; currentPtr >= (uint8_t*) data; currentPtr--)
-	{
-        sum += (uint64_t) ((*currentPtr) - 48) * currentMultiplier;
-        currentMultiplier *= 8;
-    }
-    return sum;
+
+    while (i < size && data[i] == ' ') i++;
+    for (; i < size && data[i] >= '0' && data[i] <= '7'; i++, digits++)
+        sum = sum * 8 + (uint64_t) (data[i] - '0');
+    *value = sum;
+    if (i < size && data[i] != 0 && data[i] != ' ') return MTAR_EFAILURE;
+    return digits ? MTAR_ESUCCESS : MTAR_EFAILURE;
+}
+
+/**
+ * Decode an octal field that does not matter to extract files.
+ */
+static uint32_t decodeTarInfo(
+	const char* data,
+	size_t size )
+{
+    uint64_t value;
+    if (decodeTarOctal(data, size, &value) != MTAR_ESUCCESS) return 0;
+    return (uint32_t) value;
 }
 
 static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 {
-	unsigned chksum1, chksum2;
+	const char *p = (const char*) rh;
+	uint64_t chksum;
+	size_t i;
 
-	/* if the checksum starts with a null byte we assume the record is NULL */
-	if (*rh->checksum == '\0') return MTAR_ENULLRECORD;
+	/* a record of null bytes marks the end */
+	for (i = 0; i < sizeof(*rh) && p[i] == 0; i++);
+	if (i == sizeof(*rh)) return MTAR_ENULLRECORD;
 
 	/* validate header fields */
-	chksum1 = checksum(rh);
-	chksum2 = (uint32_t) decodeTarOctal(rh->checksum, sizeof(rh->checksum));
-	if (chksum1 != chksum2) return MTAR_EBADCHKSUM;
+	if (decodeTarOctal(rh->checksum, sizeof(rh->checksum), &chksum) != MTAR_ESUCCESS
+	    || chksum != checksum(rh)) {
+		fprintf(stderr,"Damaged header in tar archive\n");
+		return MTAR_EBADCHKSUM;
+	}
 
-	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_EFAILURE;
+	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0
+	    || decodeTarOctal(rh->size, sizeof(rh->size), &h->size) != MTAR_ESUCCESS) {
+		fprintf(stderr,"Unsupported header in tar archive\n");
+		return MTAR_EFAILURE;
+	}
 
-	h->mode     = (uint32_t) decodeTarOctal(rh->mode, sizeof(rh->mode));
-	h->uid      = (uint32_t) decodeTarOctal(rh->uid, sizeof(rh->uid));
-	h->gid      = (uint32_t) decodeTarOctal(rh->gid, sizeof(rh->gid));
-	h->size     = decodeTarOctal(rh->size, sizeof(rh->size));
-	h->mtime    = (uint32_t) decodeTarOctal(rh->mtime, sizeof(rh->mtime));
-	h->devmajor = (uint32_t) decodeTarOctal(rh->devmajor, sizeof(rh->devmajor));
-	h->devminor = (uint32_t) decodeTarOctal(rh->devminor, sizeof(rh->devminor));
+	h->mode     = decodeTarInfo(rh->mode, sizeof(rh->mode));
+	h->uid      = decodeTarInfo(rh->uid, sizeof(rh->uid));
+	h->gid      = decodeTarInfo(rh->gid, sizeof(rh->gid));
+	h->mtime    = decodeTarInfo(rh->mtime, sizeof(rh->mtime));
+	h->devmajor = decodeTarInfo(rh->devmajor, sizeof(rh->devmajor));
+	h->devminor = decodeTarInfo(rh->devminor, sizeof(rh->devminor));
 
 	h->type = (uint32_t) rh->type;
 	memcpy(h->name, rh->name, sizeof(rh->name));
@@ -176,6 +190,14 @@ static int entry_path(char *tpath, const size_t max, const char *path,
 	else
 		len = snprintf(tpath,max,"%s/%s",path,header->name);
 	if(len<0 || (size_t)len>=max) return(MTAR_EOPENFAIL);
+	// never leave the destination
+	for(p=tpath+strlen(path)+1; p; p=strchr(p,'/')) {
+		while(*p=='/') p++;
+		if(strncmp(p,"..",2)==0 && (p[2]=='/' || p[2]==0)) {
+			fprintf(stderr,"Path out of destination: %s\n",tpath);
+			return(MTAR_EOPENFAIL);
+		}
+	}
 	for(p=tpath+strlen(path)+1; (p=strchr(p,'/')); p++) {
 		*p = 0x0;
 		res = ensure_dir(tpath);
-- 
2.43.0


From bf960b603a16719ca04364a145ceb19092c6e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 14/42] fix: ar writes nothing before all objects are read,
 rejects bad long names

---
 lib/tinycc/tcctools.c | 21 +++++++++++----------
 src/cjit-ar.c         | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/lib/tinycc/tcctools.c b/lib/tinycc/tcctools.c
index 9d5f9fe..52ed96b 100644
--- a/lib/tinycc/tcctools.c
+++ b/lib/tinycc/tcctools.c
@@ -167,9 +167,9 @@ no_ar:
 		continue;
 	    }
 	    if (strcmp(p, "/") && strcmp(p, "/SYM64/")) {
-		if (p[0] == '/' && lnames) { // offset in table of long names
+		if (p[0] == '/') { // offset in table of long names
 		    i = atoi(p + 1);
-		    if (i < 0 || i >= lsize)
+		    if (!lnames || i < 0 || i >= lsize)
 			goto no_ar;
 		    p = lnames + i;
 		    if ((e = strchr(p, '\n')))
@@ -355,6 +355,15 @@ bad_object:
         buf = NULL;
         i_obj++;
     }
+    // read objects before anything is written
+    fseek(fo, 0, SEEK_END);
+    fsize = ftell(fo);
+    fseek(fo, 0, SEEK_SET);
+    buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+    if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
+        fprintf(stderr, "tcc: ar: error in temporary file %s\n", tfile);
+        goto the_end;
+    }
     // write header
     fwrite(ARMAG, 8, 1, fh);
     // anything else than an empty archive
@@ -386,14 +395,6 @@ bad_object:
             fwrite(lnames, lsize, 1, fh);
         }
         // write objects
-        fseek(fo, 0, SEEK_END);
-        fsize = ftell(fo);
-        fseek(fo, 0, SEEK_SET);
-        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
-        if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
-            fprintf(stderr, "tcc: ar: error in temporary file %s\n", tfile);
-            goto the_end;
-        }
         fwrite(buf, fsize, 1, fh);
     }
     i = ferror(fh);
diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 127b583..88cf46c 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -165,9 +165,9 @@ no_ar:
 		continue;
 	    }
 	    if (strcmp(p, "/") && strcmp(p, "/SYM64/")) {
-		if (p[0] == '/' && lnames) { // offset in table of long names
+		if (p[0] == '/') { // offset in table of long names
 		    i = atoi(p + 1);
-		    if (i < 0 || i >= lsize)
+		    if (!lnames || i < 0 || i >= lsize)
 			goto no_ar;
 		    p = lnames + i;
 		    if ((e = strchr(p, '\n')))
@@ -353,6 +353,15 @@ bad_object:
         buf = NULL;
         i_obj++;
     }
+    // read objects before anything is written
+    fseek(fo, 0, SEEK_END);
+    fsize = ftell(fo);
+    fseek(fo, 0, SEEK_SET);
+    buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
+    if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
+        fprintf(stderr, "cjit-ar: error in temporary file %s\n", tfile);
+        goto the_end;
+    }
     // write header
     fwrite(ARMAG, 8, 1, fh);
     // anything else than an empty archive
@@ -384,14 +393,6 @@ bad_object:
             fwrite(lnames, lsize, 1, fh);
         }
         // write objects
-        fseek(fo, 0, SEEK_END);
-        fsize = ftell(fo);
-        fseek(fo, 0, SEEK_SET);
-        buf = tcc_malloc(fsize > 0 ? fsize + 1 : 1);
-        if (fsize < 0 || fread(buf, 1, fsize, fo) != fsize || ferror(fo)) {
-            fprintf(stderr, "cjit-ar: error in temporary file %s\n", tfile);
-            goto the_end;
-        }
         fwrite(buf, fsize, 1, fh);
     }
     i = ferror(fh);
-- 
2.43.0


From fab116ed602f7901f8f9dec48b0f8385b777c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 15/42] fix: search the current directory for libraries
 whatever its name

---
 src/cjit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 1ec3726..62feac3 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -290,6 +290,8 @@ static bool cjit_setup(CJITState *cjit) {
 		// Get the current working directory
 		if(getcwd(pwd, MAX_PATH)) {
 			add(libpaths,pwd);
+		} else {
+			add(libpaths,"."); // its name is unknown or too long
 		}
 	}
 
-- 
2.43.0


From f002e259ee78fbefeabf516d79a21af7171daf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 16/42] fix: write messages completely when they are taken in
 pieces

---
 src/cjit.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 62feac3..7d6798d 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -788,6 +788,20 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts) {
 
 #define MAX_STRING 2040
 
+// write all of a message also when it is taken in pieces
+static bool write_msg(int fd, const char *msg, int len) {
+  while(len > 0) {
+	  int n = write(fd, msg, len);
+	  if(n < 0) {
+		  if(errno == EINTR) continue;
+		  return(false);
+	  }
+	  msg += n;
+	  len -= n;
+  }
+  return(true);
+}
+
 // stdout message free from context
 bool _out(const char *fmt, ...) {
   char msg[MAX_STRING+4];
@@ -799,7 +813,7 @@ bool _out(const char *fmt, ...) {
   if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
-  if(write(fileno(stdout), msg, len+1) != len+1) {
+  if(!write_msg(fileno(stdout), msg, len+1)) {
 	  fail("_out()");
 	  return(false);
   }
@@ -819,5 +833,5 @@ void _err(const char *fmt, ...) {
   msg[len] = '\n';
   msg[len+1] = 0x0;
   // nowhere to report a failure
-  if(write(fileno(stderr),msg,len+1) <0) return;
+  write_msg(fileno(stderr), msg, len+1);
 }
-- 
2.43.0


From bb359be98fe6fbfca8242eed30be89026732abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 17/42] fix: ar fails when its temporary file stays behind

---
 src/cjit-ar.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 88cf46c..973fc70 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -414,8 +414,13 @@ the_end:
         fclose(fh);
     if (created_file && ret != 0)
         remove(created_file);
-    if (fo)
-        fclose(fo), remove(tfile);
+    if (fo) {
+        fclose(fo);
+        if (remove(tfile)) {
+            fprintf(stderr, "tcc: ar: can't remove temporary file %s\n", tfile);
+            ret = 1;
+        }
+    }
     return ret;
 }
 
-- 
2.43.0


From 1d78f8044ed4f7acd60ebb9e43b51ef47778b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 18/42] fix: forget everything of a compilation that failed

The sections and symbols of a file with errors stayed in the state, its
symbol table without hash, and tcc_debug_start() used freed scopes: the next
file added to the same state crashed or got wrong data.
---
 lib/tinycc/libtcc.c |  1 +
 lib/tinycc/tcc.h    |  1 +
 lib/tinycc/tccdbg.c |  3 ++-
 lib/tinycc/tccelf.c | 18 ++++++++++++++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 80a08c5..92458e1 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -771,6 +771,7 @@ static int tcc_compile(TCCState *s1, int filetype, const char *str, int fd)
     }
     tccgen_finish(s1);
     preprocess_end(s1);
+    tccelf_abort_file(s1);
     s1->error_set_jmp_enabled = 0;
     tcc_exit_state(s1);
     return s1->nb_errors != 0 ? -1 : 0;
diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..a8e0b8a 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1544,6 +1544,7 @@ ST_FUNC void tccelf_new(TCCState *s);
 ST_FUNC void tccelf_delete(TCCState *s);
 ST_FUNC void tccelf_begin_file(TCCState *s1);
 ST_FUNC void tccelf_end_file(TCCState *s1);
+ST_FUNC void tccelf_abort_file(TCCState *s1);
 ST_FUNC Section *new_section(TCCState *s1, const char *name, int sh_type, int sh_flags);
 ST_FUNC void section_realloc(Section *sec, unsigned long new_size);
 ST_FUNC size_t section_add(Section *sec, addr_t size, int align);
diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 7760f4f..2826eb2 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -1930,7 +1930,8 @@ ST_FUNC void tcc_debug_funcend(TCCState *s1, int size)
     {
         tcc_debug_finish (s1, debug_info_root);
     }
-    debug_info_root = 0;
+    /* in case of errors we may have been in an inner block */
+    debug_info = debug_info_root = NULL;
 }
 
 
diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ba4d321..ef1b490 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -202,6 +202,24 @@ ST_FUNC void tccelf_end_file(TCCState *s1)
     }
 }
 
+/* After a failed compilation, forget what it added to the sections and the
+   symbol table, such that the state can go on being used */
+ST_FUNC void tccelf_abort_file(TCCState *s1)
+{
+    Section *s = s1->symtab;
+    int i;
+
+    if (NULL == s || NULL == s->reloc)
+        return; /* not between tccelf_begin_file() and tccelf_end_file() */
+    s->hash = s->reloc, s->reloc = NULL;
+    for (i = 1; i < s1->nb_sections; i++) {
+        s = s1->sections[i];
+        s->data_offset = s->sh_offset;
+        if (s->data) /* is expected to be zero where not used */
+            memset(s->data + s->sh_offset, 0, s->data_allocated - s->sh_offset);
+    }
+}
+
 ST_FUNC Section *new_section(TCCState *s1, const char *name, int sh_type, int sh_flags)
 {
     Section *sec;
-- 
2.43.0


From 90a886ac6692d6daeff09ab43af69559bdc38940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 19/42] fix: release long token strings after errors, libraries
 added twice

---
 lib/tinycc/libtcc.c |  8 ++++++--
 lib/tinycc/tccpp.c  | 41 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 92458e1..424ba91 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1090,8 +1090,12 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
             if (s1->output_type == TCC_OUTPUT_MEMORY) {
 #ifdef TCC_IS_NATIVE
                 void* dl = dlopen(filename, RTLD_GLOBAL | RTLD_LAZY);
-                if (dl)
-                    tcc_add_dllref(s1, filename, 0)->handle = dl, ret = 0;
+                if (dl) {
+                    DLLReference *ref = tcc_add_dllref(s1, filename, 0);
+                    if (ref->handle)
+                        dlclose(ref->handle); /* added before */
+                    ref->handle = dl, ret = 0;
+                }
 #endif
             } else
                 ret = tcc_load_dll(s1, fd, filename, (flags & AFF_REFERENCED_DLL) != 0);
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 2299c80..9e798cf 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -141,6 +141,11 @@ ST_FUNC void expect(const char *msg)
 #define TOKSYM_TAL_LIMIT     256 /* prefer unique limits to distinguish allocators debug msgs */
 #define TOKSTR_TAL_LIMIT    1024 /* 256 * sizeof(int) */
 
+/* header of blocks that are too large for the pool */
+typedef struct tal_large_t {
+    struct tal_large_t *next, **pprev;
+} tal_large_t;
+
 typedef struct TinyAlloc {
     unsigned  limit;
     unsigned  size;
@@ -148,6 +153,7 @@ typedef struct TinyAlloc {
     uint8_t *p;
     unsigned  nb_allocs;
     struct TinyAlloc *next, *top;
+    tal_large_t *large; /* used in the last one of the list */
 #ifdef TAL_INFO
     unsigned  nb_peak;
     unsigned  nb_total;
@@ -176,6 +182,33 @@ static TinyAlloc *tal_new(TinyAlloc **pal, unsigned limit, unsigned size)
     return al;
 }
 
+static void *tal_large_realloc(TinyAlloc *al, void *p, unsigned size)
+{
+    tal_large_t *h;
+
+    while (al->next)
+        al = al->next;
+    h = tcc_realloc(p ? (tal_large_t *)p - 1 : NULL, sizeof *h + size);
+    if (!p) {
+        h->next = al->large;
+        h->pprev = &al->large;
+    }
+    *h->pprev = h;
+    if (h->next)
+        h->next->pprev = &h->next;
+    return h + 1;
+}
+
+static void tal_large_free(void *p)
+{
+    tal_large_t *h = (tal_large_t *)p - 1;
+
+    *h->pprev = h->next;
+    if (h->next)
+        h->next->pprev = h->pprev;
+    tcc_free(h);
+}
+
 static void tal_delete(TinyAlloc *al)
 {
     TinyAlloc *next;
@@ -207,6 +240,8 @@ tail_call:
 #endif
     }
 #endif
+    while (al->large) /* left behind by an error */
+        tal_large_free(al->large + 1);
     next = al->next;
     tcc_free(al->buffer);
     tcc_free(al);
@@ -238,7 +273,7 @@ tail_call:
         goto tail_call;
     }
     else
-        tcc_free(p);
+        tal_large_free(p);
 }
 
 static void *tal_realloc_impl(TinyAlloc **pal, void *p, unsigned size TAL_DEBUG_PARAMS)
@@ -303,7 +338,7 @@ tail_call:
     }
     if (is_own) {
         al->nb_allocs--;
-        ret = tcc_malloc(size);
+        ret = tal_large_realloc(al, NULL, size);
         header = (((tal_header_t *)p) - 1);
         if (p) memcpy(ret, p, header->size);
 #ifdef TAL_DEBUG
@@ -313,7 +348,7 @@ tail_call:
         al = al->next;
         goto tail_call;
     } else
-        ret = tcc_realloc(p, size);
+        ret = tal_large_realloc(al, p, size);
 #ifdef TAL_INFO
     al->nb_missed++;
 #endif
-- 
2.43.0


From 0991467020c1b20ab0ee3b7fefc2e4f339959808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 20/42] fix: .org with a negative or huge offset does not run
 forever

---
 lib/tinycc/tccasm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index e52872b..1ba0dc5 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -689,8 +689,10 @@ static void asm_parse_directive(TCCState *s1, int global)
 		  expect("constant or same-section symbol");
 		n += esym->st_value;
 	    }
-            if (n < ind)
+            if (n < ind || (long)n < 0)
                 tcc_error("attempt to .org backwards");
+            if (n - ind > 0x7fffffff)
+                tcc_error(".org too far");
             v = 0;
             size = n - ind;
             goto zero_pad;
-- 
2.43.0


From 8976a2464870f5eff299c5c38907a60ff1d905a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 21/42] fix: errors in one unit do not influence later units or
 other states

global_expr, debug_modes, pp_expr and the section for .previous were left set
by an error, func_ind and ind were left from whatever was compiled before.
---
 lib/tinycc/libtcc.c | 2 +-
 lib/tinycc/tcc.h    | 1 +
 lib/tinycc/tccasm.c | 3 ++-
 lib/tinycc/tccdbg.c | 4 ++--
 lib/tinycc/tccgen.c | 6 ++++++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 424ba91..73025af 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -606,7 +606,7 @@ static void error1(int mode, const char *fmt, va_list ap)
         cstr_printf(&cs, "tcc: ");
     }
     cstr_printf(&cs, mode == ERROR_WARN ? "warning: " : "error: ");
-    if (pp_expr > 1)
+    if (f && pp_expr > 1) /* else it may be left from, or belong to, another state */
         pp_error(&cs); /* special handler for preprocessor expression errors */
     else
         cstr_vprintf(&cs, fmt, ap);
diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index a8e0b8a..491aeb9 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1745,6 +1745,7 @@ ST_FUNC void asm_instr(void);
 ST_FUNC void asm_global_instr(void);
 ST_FUNC int tcc_assemble(TCCState *s1, int do_preprocess);
 #ifdef CONFIG_TCC_ASM
+ST_DATA Section *last_text_section; /* to handle .previous asm directive */
 ST_FUNC int find_constraint(ASMOperand *operands, int nb_operands, const char *name, const char **pp);
 ST_FUNC Sym* get_asm_sym(int name, Sym *csym);
 ST_FUNC void asm_expr(TCCState *s1, ExprValue *pe);
diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 1ba0dc5..f4b73b1 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -22,7 +22,7 @@
 #include "tcc.h"
 #ifdef CONFIG_TCC_ASM
 
-static Section *last_text_section; /* to handle .previous asm directive */
+ST_DATA Section *last_text_section; /* to handle .previous asm directive */
 static int asmgoto_n;
 
 static int asm_get_prefix_name(TCCState *s1, const char *prefix, unsigned int n)
@@ -1036,6 +1036,7 @@ ST_FUNC int tcc_assemble(TCCState *s1, int do_preprocess)
     cur_text_section = text_section;
     ind = cur_text_section->data_offset;
     nocode_wanted = 0;
+    func_ind = -1; /* not in a function */
     ret = tcc_assemble_internal(s1, do_preprocess, 1);
     cur_text_section->data_offset = ind;
     tcc_debug_end(s1);
diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 2826eb2..a595dc4 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -807,10 +807,10 @@ ST_FUNC void tcc_debug_start(TCCState *s1)
             dwarf_line_strp(dwarf_info_section, buf);
             dwarf_reloc(dwarf_info_section, section_sym, R_DATA_PTR);
 #if PTR_SIZE == 4
-            dwarf_data4(dwarf_info_section, ind); // low pc
+            dwarf_data4(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data4(dwarf_info_section, 0); // high pc
 #else
-            dwarf_data8(dwarf_info_section, ind); // low pc
+            dwarf_data8(dwarf_info_section, text_section->data_offset); // low pc
             dwarf_data8(dwarf_info_section, 0); // high pc
 #endif
             dwarf_reloc(dwarf_info_section, dwarf_sym.line, R_DATA_32DW);
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..69a9559 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -430,6 +430,12 @@ ST_FUNC void tccgen_finish(TCCState *s1)
     local_label_stack = NULL;
     cur_text_section = NULL;
     sym_free_first = NULL;
+    /* in case of errors, nothing of this must be left for the next unit */
+    debug_modes = 0;
+    global_expr = 0;
+#ifdef CONFIG_TCC_ASM
+    last_text_section = NULL;
+#endif
 }
 
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From 5756862fa4541ca16d6d7ef47eedbcd2263666a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 22/42] fix: initialise locks once when threads start together

wait_sem() initialised its semaphore lazily without protection, so that
two threads arriving together both entered the critical section.  A wait
that was interrupted also left EINTR in the errno of the caller.
---
 lib/tinycc/tcc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 491aeb9..11dde9c 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1883,6 +1883,7 @@ typedef struct { int init; CRITICAL_SECTION cr; } TCCSem;
 #include <dispatch/dispatch.h>
 typedef struct { int init; dispatch_semaphore_t sem; } TCCSem;
 #else
+#include <pthread.h>
 #include <semaphore.h>
 typedef struct { int init; sem_t sem; } TCCSem;
 #endif
@@ -1976,9 +1977,14 @@ ST_FUNC void post_sem(TCCSem *p)
 #else
 ST_FUNC void wait_sem(TCCSem *p)
 {
+    static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+    int save_errno = errno;
+    pthread_mutex_lock(&mutex); /* several threads may get here first */
     if (!p->init)
         sem_init(&p->sem, 0, 1), p->init = 1;
+    pthread_mutex_unlock(&mutex);
     while (sem_wait(&p->sem) < 0 && errno == EINTR);
+    errno = save_errno;
 }
 ST_FUNC void post_sem(TCCSem *p)
 {
-- 
2.43.0


From 319b7860fac343ab02372d6b6c432d84c0596a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 23/42] fix: a failed runtime library load ends the link before
 half-loaded sections are used

---
 lib/tinycc/tccelf.c | 3 +++
 lib/tinycc/tccrun.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ef1b490..553e3bd 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2854,6 +2854,9 @@ static int elf_output_file(TCCState *s1, const char *filename)
 #endif
         /* if linking, also link in runtime libraries (libc, libgcc, etc.) */
         tcc_add_runtime(s1);
+        /* a library that failed to load may be merged in only partly */
+        if (s1->nb_errors)
+            goto the_end;
 	resolve_common_syms(s1);
 
         if (!s1->static_link) {
diff --git a/lib/tinycc/tccrun.c b/lib/tinycc/tccrun.c
index b0cb4db..e3414f6 100644
--- a/lib/tinycc/tccrun.c
+++ b/lib/tinycc/tccrun.c
@@ -314,6 +314,9 @@ static int tcc_relocate_ex(TCCState *s1, void *ptr, unsigned ptr_diff)
         pe_output_file(s1, NULL);
 #else
         tcc_add_runtime(s1);
+        /* a library that failed to load may be merged in only partly */
+        if (s1->nb_errors)
+            return -1;
 	resolve_common_syms(s1);
         build_got_entries(s1, 0);
 #endif
-- 
2.43.0


From d1ed2f04475faacf64ce6664e6d1b6c9f270e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 24/42] fix: asm goto label numbers do not depend on earlier
 units or other states

---
 lib/tinycc/tcc.h    | 1 +
 lib/tinycc/tccasm.c | 2 +-
 lib/tinycc/tccgen.c | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 11dde9c..42a082e 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1746,6 +1746,7 @@ ST_FUNC void asm_global_instr(void);
 ST_FUNC int tcc_assemble(TCCState *s1, int do_preprocess);
 #ifdef CONFIG_TCC_ASM
 ST_DATA Section *last_text_section; /* to handle .previous asm directive */
+ST_DATA int asmgoto_n; /* counts asm goto labels of the unit */
 ST_FUNC int find_constraint(ASMOperand *operands, int nb_operands, const char *name, const char **pp);
 ST_FUNC Sym* get_asm_sym(int name, Sym *csym);
 ST_FUNC void asm_expr(TCCState *s1, ExprValue *pe);
diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index f4b73b1..b54f446 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -23,7 +23,7 @@
 #ifdef CONFIG_TCC_ASM
 
 ST_DATA Section *last_text_section; /* to handle .previous asm directive */
-static int asmgoto_n;
+ST_DATA int asmgoto_n;
 
 static int asm_get_prefix_name(TCCState *s1, const char *prefix, unsigned int n)
 {
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 69a9559..8db8bf8 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -435,6 +435,7 @@ ST_FUNC void tccgen_finish(TCCState *s1)
     global_expr = 0;
 #ifdef CONFIG_TCC_ASM
     last_text_section = NULL;
+    asmgoto_n = 0;
 #endif
 }
 
-- 
2.43.0


From 815698cb18ad0eec18a12544a046f46b513d7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 25/42] fix: errors loading runtime libraries are not forgotten
 when backtrace stubs are compiled

---
 lib/tinycc/tccelf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 553e3bd..6df8624 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1554,10 +1554,13 @@ static void tcc_compile_string_no_debug(TCCState *s, const char *str)
 {
     int save_do_debug = s->do_debug;
     int save_test_coverage = s->test_coverage;
+    int nb_errors = s->nb_errors;
 
     s->do_debug = 0;
     s->test_coverage = 0;
     tcc_compile_string(s, str);
+    /* compiling resets the count: keep the errors found before */
+    s->nb_errors += nb_errors;
     s->do_debug = save_do_debug;
     s->test_coverage = save_test_coverage;
 }
-- 
2.43.0


From 290824473d1e17ecee5bc3f8d59a6455d97cdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 26/42] fix: an object file that cannot be loaded leaves
 nothing in the sections

---
 lib/tinycc/tccelf.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 6df8624..c1ce103 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3109,6 +3109,7 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     ElfW(Shdr) *shdr, *sh;
     unsigned long size, offset, offseti;
     int i, j, nb_syms, sym_index, ret, seencompressed;
+    int nb_sections = s1->nb_sections;
     char *strsec, *strtab;
     int stab_index, stabstr_index;
     int *old_to_new_syms;
@@ -3394,6 +3395,23 @@ invalid:
 
     ret = 0;
  the_end:
+    if (ret < 0 && !old_to_new_syms) {
+        /* leave nothing of it in the sections */
+        for(i = ehdr.e_shnum; --i > 0;) {
+            s = sm_table[i].s;
+            if (s && s != symtab_section) {
+                offset = sm_table[i].offset;
+                if (s->sh_type != SHT_NOBITS)
+                    memset(s->data + offset, 0, s->data_offset - offset);
+                s->data_offset = offset;
+            }
+        }
+        while (s1->nb_sections > nb_sections) {
+            s = s1->sections[--s1->nb_sections];
+            free_section(s);
+            tcc_free(s);
+        }
+    }
     tcc_free(symtab);
     tcc_free(strtab);
     tcc_free(old_to_new_syms);
-- 
2.43.0


From 2e77a53bdc47b44d91af1d8ba398b5d7b9390c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 27/42] fix: an executable written over a file that could not
 be removed is executable, or linking fails

---
 lib/tinycc/tccelf.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index c1ce103..0bb325d 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -19,6 +19,9 @@
  */
 
 #include "tcc.h"
+#ifndef _WIN32
+#include <sys/stat.h>
+#endif
 
 /* Define this to get some debug output during relocation processing.  */
 #undef DEBUG_RELOC
@@ -2698,6 +2701,19 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
             close(fd), unlink(filename);
         return ret;
     }
+#ifndef _WIN32
+    if (file_type != TCC_OUTPUT_OBJ) {
+        /* a file that could not be removed above has kept its mode */
+        struct stat st;
+        if (fstat(fd, &st) < 0
+            || (S_ISREG(st.st_mode) && !(st.st_mode & 0111)
+                && fchmod(fd, (st.st_mode & 0777) | ((st.st_mode & 0444) >> 2)) < 0)) {
+            ret = tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+            fclose(f);
+            return ret;
+        }
+    }
+#endif
     if (s1->verbose)
         printf("<- %s\n", filename);
 #ifdef TCC_TARGET_COFF
-- 
2.43.0


From a96f72cf15b891f45b194381c2ad18e229109ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 28/42] fix: CFLAGS with -g makes debug information or is
 ignored, it does not crash

---
 src/cjit.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 7d6798d..00c5d38 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -254,19 +254,23 @@ static bool cjit_setup(CJITState *cjit) {
 		fail("error extracting assets in temp dir");
 		return(false);
 	}
-#endif
-	if(tcc_set_output_type(tcc(cjit), cjit->tcc_output)<0)
-		return(false);
-#if defined(LIBC_MUSL)
-	tcc_add_libc_symbols(tcc(cjit));
 #endif
 	if(getenv("CFLAGS")) {
 		char *extra_cflags = NULL;
 		extra_cflags = getenv("CFLAGS");
 		_err("CFLAGS: %s",extra_cflags);
 		debug(" -C %s",extra_cflags);
+		// before setting the output type, which makes debug sections
 		tcc_set_options(tcc(cjit), extra_cflags);
+		// debug info is for files, as option -g it is ignored else
+		if(cjit->tcc_output==MEM)
+			tcc_set_options(tcc(cjit), "-g0");
 	}
+	if(tcc_set_output_type(tcc(cjit), cjit->tcc_output)<0)
+		return(false);
+#if defined(LIBC_MUSL)
+	tcc_add_libc_symbols(tcc(cjit));
+#endif
 #if defined(WINDOWS)
 	// add symbols for windows compatibility
 	tcc_add_symbol(tcc(cjit), "usleep", &win_compat_usleep);
-- 
2.43.0


From d15233e8999e9437e08868deca8a9eb887d73080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 29/42] fix: code that cannot run at a high address is refused,
 it does not crash

---
 lib/tinycc/tccelf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 0bb325d..79b5bcb 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1133,6 +1133,14 @@ static void relocate_section(TCCState *s1, Section *s, Section *sr)
             continue;
         }
         addr = s->sh_addr + rel->r_offset;
+#ifdef TCC_TARGET_X86_64
+        /* code of other compilers may be made for low memory only */
+        if (s1->output_type == TCC_OUTPUT_MEMORY
+            && (s->sh_flags & SHF_EXECINSTR)
+            && (type == R_X86_64_32 ? (long long)tgt >> 32 != 0
+                : type == R_X86_64_32S && (long long)tgt != (int)tgt))
+            tcc_error_noabort("relocation in %s out of range, code not compiled with -fPIC or -fPIE", s->name);
+#endif
         relocate(s1, rel, type, ptr, addr, tgt);
     }
 #ifndef ELF_OBJ_ONLY
-- 
2.43.0


From bffbcdbb6f253befec0a40e0375072ae1917b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 30/42] fix: thread-local variables of objects made by other
 compilers keep their values in executables and are refused in memory

---
 lib/tinycc/tccelf.c      | 36 +++++++++++++++++---
 lib/tinycc/x86_64-link.c | 73 ++++++++++++++++++++++++----------------
 2 files changed, 75 insertions(+), 34 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 79b5bcb..a7e7b68 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2163,6 +2163,9 @@ struct dyn_inf {
 
     /* read only segment mapping for GNU_RELRO */
     Section _roinf, *roinf;
+
+    /* initial image of thread local variables */
+    Section _tls, *tls;
 };
 
 /* Decide the layout of sections loaded in memory. This must be done before
@@ -2298,6 +2301,16 @@ static int layout_sections(TCCState *s1, int *sec_order, struct dyn_inf *d)
         ++phnum;
     if (d->roinf)
         ++phnum;
+    for(i = 1; i < s1->nb_sections; i++) {
+        s = s1->sections[i];
+        if ((s->sh_flags & (SHF_ALLOC|SHF_TLS)) == (SHF_ALLOC|SHF_TLS)) {
+            d->tls = &d->_tls;
+            if (s->sh_addralign > d->tls->sh_addralign)
+                d->tls->sh_addralign = s->sh_addralign;
+        }
+    }
+    if (d->tls)
+        ++phnum;
     d->phnum = phnum;
     d->phdr = tcc_mallocz(phnum * sizeof(ElfW(Phdr)));
 
@@ -2351,11 +2364,16 @@ static int layout_sections(TCCState *s1, int *sec_order, struct dyn_inf *d)
                    memory so that one copy is RX and the other is RW */
                 if ((addr & (s_align - 1)) != 0)
                     addr += s_align;
+                /* sections without data may have come before */
+                addr += (file_offset - addr) & (s_align - 1);
             } else {
                 align = s_align - 1;
             }
         }
 
+        if (f & SHF_TLS)
+            align = d->_tls.sh_addralign - 1;
+
         tmp = addr;
         addr = (addr + align) & ~align;
         file_offset += (int)(addr - tmp);
@@ -2372,11 +2390,6 @@ static int layout_sections(TCCState *s1, int *sec_order, struct dyn_inf *d)
                 ph->p_flags |= PF_W;
             if (f & SHF_EXECINSTR)
                 ph->p_flags |= PF_X;
-            if (f & SHF_TLS) {
-                ph->p_type = PT_TLS;
-                ph->p_align = align + 1;
-            }
-
             ph->p_offset = file_offset;
             ph->p_vaddr = addr;
             if (n == 0) {
@@ -2401,6 +2414,17 @@ static int layout_sections(TCCState *s1, int *sec_order, struct dyn_inf *d)
             roinf->sh_size = (addr - roinf->sh_addr) + s->sh_size;
         }
 
+        if (f & SHF_TLS) {
+            Section *tls = &d->_tls;
+            if (f & 1<<8) {
+                tls->sh_offset = s->sh_offset;
+                tls->sh_addr = s->sh_addr;
+            }
+            if (s->sh_type != SHT_NOBITS)
+                tls->sh_size = (addr - tls->sh_addr) + s->sh_size;
+            tls->data_offset = (addr - tls->sh_addr) + s->sh_size;
+        }
+
         addr += s->sh_size;
         if (s->sh_type != SHT_NOBITS)
             file_offset += s->sh_size;
@@ -2416,6 +2440,8 @@ static int layout_sections(TCCState *s1, int *sec_order, struct dyn_inf *d)
         fill_phdr(++ph, PT_DYNAMIC, d->dynamic)->p_flags |= PF_W;
     if (d->roinf)
         fill_phdr(++ph, PT_GNU_RELRO, d->roinf)->p_flags |= PF_W;
+    if (d->tls)
+        fill_phdr(++ph, PT_TLS, d->tls)->p_memsz = d->tls->data_offset;
     if (d->interp)
         fill_phdr(&d->phdr[1], PT_INTERP, d->interp);
     if (phfill) {
diff --git a/lib/tinycc/x86_64-link.c b/lib/tinycc/x86_64-link.c
index 42f753c..b1ae615 100644
--- a/lib/tinycc/x86_64-link.c
+++ b/lib/tinycc/x86_64-link.c
@@ -186,6 +186,35 @@ ST_FUNC void relocate_plt(TCCState *s1)
 #endif
 #endif
 
+/* offset of a thread local variable from the thread pointer, which is at the
+   (aligned) end of the initial thread local storage of the executable */
+static addr_t tls_offset(TCCState *s1, int sym_index, addr_t val)
+{
+    ElfW(Sym) *sym = &((ElfW(Sym) *)symtab_section->data)[sym_index];
+    addr_t start = -1, end = 0, align = 1;
+    Section *s;
+    int i;
+
+    if (s1->output_type == TCC_OUTPUT_MEMORY
+        || sym->st_shndx == SHN_UNDEF || sym->st_shndx >= SHN_LORESERVE) {
+        tcc_error_noabort("thread-local variable '%s' is not supported here",
+            (char *) symtab_section->link->data + sym->st_name);
+        return 0;
+    }
+    for (i = 1; i < s1->nb_sections; i++) {
+        s = s1->sections[i];
+        if ((s->sh_flags & (SHF_ALLOC|SHF_TLS)) != (SHF_ALLOC|SHF_TLS))
+            continue;
+        if (s->sh_addr < start)
+            start = s->sh_addr;
+        if (s->sh_addr + s->sh_size > end)
+            end = s->sh_addr + s->sh_size;
+        if (s->sh_addralign > align)
+            align = s->sh_addralign;
+    }
+    return val - (start + ((end - start + align - 1) & -align));
+}
+
 ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr, addr_t addr, addr_t val)
 {
     int sym_index, esym_index;
@@ -297,7 +326,18 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
             add64le(ptr, s1->got->sh_addr - addr + rel->r_addend);
             break;
         case R_X86_64_GOTTPOFF:
-            add32le(ptr, val - s1->got->sh_addr);
+            /* the variable is in the executable, its offset is known */
+            if (ptr[-2] == 0x8b)
+                ptr[-2] = 0xc7; /* mov x(%rip),%reg -> mov $x,%reg */
+            else if (ptr[-2] == 0x03)
+                ptr[-2] = 0x81; /* add x(%rip),%reg -> add $x,%reg */
+            else {
+                tcc_error_noabort("unexpected R_X86_64_GOTTPOFF pattern");
+                break;
+            }
+            ptr[-3] = 0x48 | (ptr[-3] & 4) >> 2;
+            ptr[-1] = 0xc0 | (ptr[-1] >> 3 & 7);
+            write32le(ptr, tls_offset(s1, sym_index, val - rel->r_addend));
             break;
         case R_X86_64_GOT32:
             /* we load the got offset */
@@ -324,16 +364,9 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
                     0x48, 0x8d, 0x80, 0x00, 0x00, 0x00, 0x00 };
 
                 if (memcmp (ptr-4, expect, sizeof(expect)) == 0) {
-                    ElfW(Sym) *sym;
-                    Section *sec;
-                    int32_t x;
-
                     memcpy(ptr-4, replace, sizeof(replace));
                     rel[1].r_info = ELFW(R_INFO)(0, R_X86_64_NONE);
-                    sym = &((ElfW(Sym) *)symtab_section->data)[sym_index];
-                    sec = s1->sections[sym->st_shndx];
-                    x = sym->st_value - sec->sh_addr - sec->data_offset;
-                    add32le(ptr + 8, x);
+                    add32le(ptr + 8, tls_offset(s1, sym_index, val - rel->r_addend));
                 }
                 else
                     tcc_error_noabort("unexpected R_X86_64_TLSGD pattern");
@@ -361,29 +394,11 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
             break;
         case R_X86_64_DTPOFF32:
         case R_X86_64_TPOFF32:
-            {
-                ElfW(Sym) *sym;
-                Section *sec;
-                int32_t x;
-
-                sym = &((ElfW(Sym) *)symtab_section->data)[sym_index];
-                sec = s1->sections[sym->st_shndx];
-                x = val - sec->sh_addr - sec->data_offset;
-                add32le(ptr, x);
-            }
+            add32le(ptr, tls_offset(s1, sym_index, val));
             break;
         case R_X86_64_DTPOFF64:
         case R_X86_64_TPOFF64:
-            {
-                ElfW(Sym) *sym;
-                Section *sec;
-                int32_t x;
-
-                sym = &((ElfW(Sym) *)symtab_section->data)[sym_index];
-                sec = s1->sections[sym->st_shndx];
-                x = val - sec->sh_addr - sec->data_offset;
-                add64le(ptr, x);
-            }
+            add64le(ptr, tls_offset(s1, sym_index, val));
             break;
         case R_X86_64_NONE:
             break;
-- 
2.43.0


From 198b1eeae87196a48806bf219b6ceb9056be799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 31/42] fix: main gets the environment as its third argument

---
 src/cjit.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 00c5d38..f6f3763 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -656,6 +656,10 @@ static bool write_pid_file(const char *path) {
 	return res;
 }
 
+#if !defined(WINDOWS)
+extern char **environ;
+#endif
+
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if(!cjit->done_setup) {
 		_err("%s: no source code found",__func__);
@@ -680,7 +684,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		}
 	}
 	int res = 1;
-	int (*_ep)(int, char**);
+	int (*_ep)(int, char**, char**);
 	// relocate the code (link symbols)
 #if defined(SHAREDTCC)
 	if (tcc_relocate(tcc(cjit), TCC_RELOCATE_AUTO) < 0) {
@@ -699,7 +703,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 #if defined(WINDOWS)
 	if(cjit->write_pid && !write_pid_file(cjit->write_pid)) return -1;
 	cjit->done_exec = true;
-	res = _ep(argc, argv);
+	res = _ep(argc, argv, environ);
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
@@ -713,7 +717,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	}
 	if (pid == 0) {
 		if(cjit->write_pid && !write_pid_file(cjit->write_pid)) exit(1);
-		res = _ep(argc, argv);
+		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
 		int status;
-- 
2.43.0


From 3ba0acb774610797b9f607bab11029836deea276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 32/42] fix: constructors and destructors run also when the
 program is run directly

---
 src/cjit.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index f6f3763..45944b8 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -658,6 +658,26 @@ static bool write_pid_file(const char *path) {
 
 #if !defined(WINDOWS)
 extern char **environ;
+
+// bounds of the constructors and destructors of the program
+typedef void (*initfun)(int, char**, char**);
+typedef void (*finifun)(void);
+static finifun *fini_start, *fini_end;
+static void run_destructors() {
+	while(fini_end > fini_start) (*--fini_end)();
+}
+static bool run_constructors(CJITState *cjit, int argc, char **argv) {
+	initfun *f = tcc_get_symbol(tcc(cjit), "__init_array_start");
+	initfun *end = tcc_get_symbol(tcc(cjit), "__init_array_end");
+	fini_start = tcc_get_symbol(tcc(cjit), "__fini_array_start");
+	fini_end = tcc_get_symbol(tcc(cjit), "__fini_array_end");
+	if(fini_start && fini_start < fini_end && atexit(run_destructors)) {
+		_err("Cannot register destructors");
+		return(false);
+	}
+	for(; f && f < end; f++) (*f)(argc, argv, environ);
+	return(true);
+}
 #endif
 
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
@@ -717,6 +737,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	}
 	if (pid == 0) {
 		if(cjit->write_pid && !write_pid_file(cjit->write_pid)) exit(1);
+		if(!run_constructors(cjit, argc, argv)) exit(1);
 		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
-- 
2.43.0


From 22f1f6dff889432860395e5b4aa905e8953ef82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 33/42] fix: errno is zero when the program starts

---
 src/cjit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cjit.c b/src/cjit.c
index 45944b8..1c84225 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -737,6 +737,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	}
 	if (pid == 0) {
 		if(cjit->write_pid && !write_pid_file(cjit->write_pid)) exit(1);
+		errno = 0; // as the program expects to find it
 		if(!run_constructors(cjit, argc, argv)) exit(1);
 		res = _ep(argc, argv, environ);
 		exit(res);
-- 
2.43.0


From c6bc6476fe9b3f7c6c2b2b90e2cbfaceb19ff397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 34/42] fix: indirect functions and prioritised constructors in
 objects of other compilers are refused, they gave silently wrong programs

---
 lib/tinycc/tccelf.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index a7e7b68..cb2f138 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3255,6 +3255,12 @@ invalid:
         sh_name = strsec + sh->sh_name;
         if (sh->sh_addralign < 1)
             sh->sh_addralign = 1;
+        /* constructors and destructors with priorities would never run */
+        if ((sh->sh_type == SHT_INIT_ARRAY || sh->sh_type == SHT_FINI_ARRAY)
+            && strcmp(sh_name, ".init_array") && strcmp(sh_name, ".fini_array")) {
+            tcc_error_noabort("section '%s' is not supported", sh_name);
+            goto the_end;
+        }
         /* find corresponding section, if any */
         for(j = 1; j < s1->nb_sections;j++) {
             s = s1->sections[j];
@@ -3377,6 +3383,11 @@ invalid:
         }
         /* add symbol */
         name = strtab + sym->st_name;
+        if (sym->st_shndx != SHN_UNDEF
+            && ELFW(ST_TYPE)(sym->st_info) == STT_GNU_IFUNC) {
+            tcc_error_noabort("indirect function '%s' is not supported", name);
+            goto the_end;
+        }
         sym_index = set_elf_sym(symtab_section, sym->st_value, sym->st_size,
                                 sym->st_info, sym->st_other,
                                 sym->st_shndx, name);
-- 
2.43.0


From e85aa8394af0d6586429d462fbb3d5aac4d4d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:53 +0000
Subject: [PATCH 35/42] fix: library data that an object of another compiler
 reaches directly is refused in memory, it read code instead

---
 lib/tinycc/tccelf.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index cb2f138..93e01ec 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1468,6 +1468,18 @@ redo:
                 continue;
             }
 
+#ifdef TCC_TARGET_X86_64
+            /* a slot serves calls and jumps, it cannot stand for data */
+            if (type == R_X86_64_PC32 && s1->output_type == TCC_OUTPUT_MEMORY && pass == 0
+                && (s1->sections[s->sh_info]->sh_flags & SHF_EXECINSTR) && rel->r_offset > 1) {
+                unsigned char *op = s1->sections[s->sh_info]->data + rel->r_offset;
+                if ((op[-1] & 0xfe) != 0xe8 && (op[-2] != 0x0f || (op[-1] & 0xf0) != 0x80)) {
+                    tcc_error_noabort("'%s' of a library is out of reach, compile with -fPIC",
+                        (char *) symtab_section->link->data + sym->st_name);
+                    continue;
+                }
+            }
+#endif
             if (reloc_type != 0) {
         jmp_slot:
 	        if (pass != 0)
-- 
2.43.0


From 4002a35dd03e170f2e45eb89bb7deac39a9f5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 36/42] fix: -rdynamic links objects of the large code model,
 it said '_GLOBAL_OFFSET_TABLE_' defined twice

---
 lib/tinycc/tccelf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 93e01ec..a2f677c 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2077,7 +2077,9 @@ static void bind_libs_dynsyms(TCCState *s1)
         dynsym_index = find_elf_sym(s1->dynsymtab_section, name);
         if (sym->st_shndx != SHN_UNDEF) {
             if (ELFW(ST_BIND)(sym->st_info) != STB_LOCAL
-                && (dynsym_index || s1->rdynamic))
+                && (dynsym_index || s1->rdynamic)
+                /* .got is known already and has grown since */
+                && (!s1->got || sym->st_shndx != s1->got->sh_num))
                 set_elf_sym(s1->dynsym, sym->st_value, sym->st_size,
                             sym->st_info, 0, sym->st_shndx, name);
         } else if (dynsym_index) {
-- 
2.43.0


From fdf7d5b1b4a6c3c5823c2d6fe9f50b6476c52d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:25 +0000
Subject: [PATCH 37/42] fix: variables in named sections are writable in
 executables, they crashed the program

---
 lib/tinycc/tccelf.c | 3 +++
 lib/tinycc/tccgen.c | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index a2f677c..ec83753 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3313,6 +3313,9 @@ invalid:
             tcc_error_noabort("invalid section type");
             goto the_end;
         }
+        /* one writable part makes all of it writable */
+        if (!(s->sh_flags & SHF_EXECINSTR))
+            s->sh_flags |= sh->sh_flags & SHF_WRITE;
         /* align start of section */
         s->data_offset += -s->data_offset & (sh->sh_addralign - 1);
         if (sh->sh_addralign > s->sh_addralign)
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8db8bf8..c550ca0 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -8162,11 +8162,15 @@ static void decl_initializer_alloc(CType *type, AttributeDef *ad, int r,
 
         /* allocate symbol in corresponding section */
         sec = ad->section;
-        if (!sec) {
+        if (!sec || sec->sh_flags == SHF_ALLOC) {
             CType *tp = type;
             while ((tp->t & (VT_BTYPE|VT_ARRAY)) == (VT_PTR|VT_ARRAY))
                 tp = &tp->ref->type;
-            if (tp->t & VT_CONSTANT) {
+            if (sec) {
+                /* named by the program, made writable as needed */
+                if (!(tp->t & VT_CONSTANT) && sec != rodata_section)
+                    sec->sh_flags |= SHF_WRITE;
+            } else if (tp->t & VT_CONSTANT) {
 		sec = rodata_section;
             } else if (has_init) {
 		sec = data_section;
-- 
2.43.0


From 7507e6ee164ae8741903cb5aa2d6640737eeb65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 38/42] fix: a call refused for lack of SSE leaks nothing

---
 lib/tinycc/x86_64-gen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..f84b791 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1279,8 +1279,10 @@ void gfunc_call(int nb_args)
 	}
     }
 
-    if (nb_sse_args && tcc_state->nosse)
+    if (nb_sse_args && tcc_state->nosse) {
+      tcc_free(onstack);
       tcc_error("SSE disabled but floating point arguments passed");
+    }
 
     /* fetch cpu flag before generating any code */
     if ((vtop->r & VT_VALMASK) == VT_CMP)
-- 
2.43.0


From 516b3f2f1ef7b18c6f5341b4edc2baa9cf58ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 39/42] fix: a library path configuration that cannot be
 examined is an error, its libraries were passed over

---
 src/elflinker.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index f917227..7b8a08d 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -99,8 +99,14 @@ bool read_ldsoconf_dir(xarray_t *dest, const char *directory) {
     for (int i = 0; i < n; i++) {
 		bool regular = namelist[i]->d_type == DT_REG;
 		cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
-		if (namelist[i]->d_type == DT_UNKNOWN) // not told by all filesystems
-			regular = lstat(path, &info) == 0 && S_ISREG(info.st_mode);
+		if (namelist[i]->d_type == DT_UNKNOWN) { // not told by all filesystems
+			regular = lstat(path, &info) == 0;
+			if(!regular && errno != ENOENT && errno != EACCES) {
+				fail(path);
+				res = false;
+			}
+			regular = regular && S_ISREG(info.st_mode);
+		}
 		// Regular files only
 		//  || namelist[i]->d_type == DT_LNK
 		if (regular && res) {
-- 
2.43.0


From 50e209d0a8efd2ce81c4ac36dbe8c3bb40887d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 40/42] fix: a returned value is read before the cleanups of
 the scope run

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c550ca0..e62cf87 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7046,6 +7046,9 @@ again:
             gexpr();
             if (b) {
                 gen_assign_cast(&func_vt);
+                /* cleanups must not change the value returned */
+                if (cur_scope->cl.s && (func_vt.t & VT_BTYPE) != VT_STRUCT)
+                    gv(RC_TYPE(func_vt.t));
             } else {
                 if (vtop->type.t != VT_VOID)
                     tcc_warning("void function returns a value");
-- 
2.43.0


From a63209be115e7410aa54f8980ba942cbaa9c977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 41/42] fix: a library path configuration that may not be
 examined is reported

---
 src/elflinker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 7b8a08d..cc72b79 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -101,9 +101,9 @@ bool read_ldsoconf_dir(xarray_t *dest, const char *directory) {
 		cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
 		if (namelist[i]->d_type == DT_UNKNOWN) { // not told by all filesystems
 			regular = lstat(path, &info) == 0;
-			if(!regular && errno != ENOENT && errno != EACCES) {
+			if(!regular && errno != ENOENT) {
+				if(errno != EACCES) res = false;
 				fail(path);
-				res = false;
 			}
 			regular = regular && S_ISREG(info.st_mode);
 		}
-- 
2.43.0


From 0efc4e2793a1a588481f195523a08f78286fb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 42/42] fix: an initialised variable with hidden visibility
 overrides a tentative definition, its value was dropped

---
 lib/tinycc/tccelf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ec83753..7c64d77 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -712,14 +712,14 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
                 /* weak is ignored if already global */
             } else if (sym_bind == STB_WEAK && esym_bind == STB_WEAK) {
                 /* keep first-found weak definition, ignore subsequents */
-            } else if (sym_vis == STV_HIDDEN || sym_vis == STV_INTERNAL) {
-                /* ignore hidden symbols after */
             } else if ((esym->st_shndx == SHN_COMMON
                             || esym->st_shndx == bss_section->sh_num)
                         && (shndx < SHN_LORESERVE
                             && shndx != bss_section->sh_num)) {
                 /* data symbol gets precedence over common/bss */
                 goto do_patch;
+            } else if (sym_vis == STV_HIDDEN || sym_vis == STV_INTERNAL) {
+                /* ignore hidden symbols after */
             } else if (shndx == SHN_COMMON || shndx == bss_section->sh_num) {
                 /* data symbol keeps precedence over common/bss */
             } else if (s->sh_flags & SHF_DYNSYM) {
-- 
2.43.0

