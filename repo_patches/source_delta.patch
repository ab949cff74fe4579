From 29068e1923a5e8b104650ed961f4d0630fccae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 01/23] fix: queue a post-install trigger only for files a
 trigger rule matches

---
 src/pkgadd.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..a6bfb06 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -236,6 +236,7 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 			non_install_set.insert(i);
 
 		std::pair <std::string, int> a;
+		bool run_trigger = false;
 		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
 		j != scripts_found.rend();
 		j++) {
@@ -243,11 +244,11 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 			a.second=(*j).event;
 
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
+				run_trigger = (*j).action;
 				break;
 				}
 		}
-		if (install_file) {
+		if (run_trigger) {
 			if ( a.second == cards::LDCONF ) {
 				a.first="";
 			} else {
-- 
2.43.0


From 4fc424cc32ebbaf7753671d5478074c84853b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 02/23] fix: report the recorded build date of an archive, not
 the epoch

---
 src/archive.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..b53a336 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -351,7 +351,7 @@ std::string archive::builddate()
     char* c_time_s;
     std::string buildtime;
     for (auto bt : m_contentMeta) {
-        if (buildtime[0] == BUILD) {
+        if (bt[0] == BUILD) {
             buildtime = bt.substr(1);
             break;
         }
-- 
2.43.0


From bd68bbc76fa9614b27c722cef8b06b16ab0e208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 03/23] fix: keep the last character of an archive's metadata,
 and do not write before an empty one

---
 src/archive.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index b53a336..ea3f6f1 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -93,9 +93,9 @@ void archive::extractFileContent
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
+            char* fC = (char*)malloc(entry_size + 1);
             archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
+            fC[entry_size] = '\0';
             list = parseDelimitedVectorList(fC,'\n');
             free(fC);
             break;
-- 
2.43.0


From 158fbf597026fe8ea2ce343995a7f3dee38ea9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 04/23] fix: a child that was killed or never started is not a
 success

---
 src/process.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..8633ca3 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -5,6 +5,11 @@
 
 #include "process.h"
 
+// exit status of a child, or -1 if it was not started, not waited for or killed
+static int exitStatus(int status)
+{
+    return WIFEXITED(status) ? WEXITSTATUS(status) : -1;
+}
 process::process()
 {
 }
@@ -110,7 +115,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +137,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::executeShell()
@@ -191,7 +196,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +218,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
-- 
2.43.0


From 4274c45f00244eb06a6fb9a0b701711f5af2b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 05/23] fix: never prune the base directory when it is given
 with a trailing slash

---
 src/file_utils.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..246a794 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -213,7 +213,12 @@ void cleanupMetaFiles(const std::string& basedir)
 }
 void removeFile(const std::string& basedir, const std::string& filename)
 {
-  if (filename != basedir && !remove(filename.c_str())) {
+  // a base directory given with a trailing slash is still the same directory
+  std::string base = basedir;
+  if (base.size() > 1 && base.back() == '/')
+    base.pop_back();
+
+  if (filename != basedir && filename != base && !remove(filename.c_str())) {
     char* path = strdup(filename.c_str());
     removeFile(basedir, dirname(path));
     free(path);
-- 
2.43.0


From 9cdef93b32c463b3aeb12628ce6f61625ef4ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 06/23] fix: do not leave the path of a long directory entry
 unterminated

---
 src/file_utils.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 246a794..5971311 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -318,6 +318,11 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 			continue;
 		if (!strcmp(dent->d_name, ".") || !strcmp(dent->d_name, ".."))
 			continue;
+		if (strlen(dent->d_name) >= (size_t)(FILENAME_MAX - len))
+		{
+			res = WALK_NAMETOOLONG;
+			continue;
+		}
 		strncpy(fn + len, dent->d_name, FILENAME_MAX - len);
 		if (lstat(fn, &st) == -1)
 		{
-- 
2.43.0


From 8e78666e0212c645b0414b9eff662bbae23b5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 07/23] fix: read record lines whole: long ones and an
 unterminated last one lost characters

---
 src/file_utils.cxx | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 5971311..6e059a2 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -354,35 +354,31 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 }
 int parseFile(std::set<std::string>& fileContent, const char* fileName)
 {
-	FILE* fp = fopen(fileName, "r");
+	std::ifstream file(fileName);
 
-	if (!fp)
+	if (!file)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.insert(input);
-  }
-  fclose(fp);
-  return 0;
+	while (std::getline(file, line))
+		fileContent.insert(line);
+
+	return 0;
 }
 
 int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 {
-	FILE* fp = fopen(fileName, "r");
+	std::ifstream file(fileName);
 
-	if (!fp)
+	if (!file)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
+
+	while (std::getline(file, line))
+		fileContent.push_back(line);
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.push_back(input);
-	}
-	fclose(fp);
 	return 0;
 }
 int parseFile(std::string& Depends, const char* key, const char* fileName)
-- 
2.43.0


From 2871cc04c54fdc241a929bfaa046b77fdec68d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 08/23] fix: hold the database lock while create installs and
 removes packages

---
 src/create.cxx | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..b38fc69 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -110,17 +110,24 @@ void create::base()
         }
         found = false;
     }
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META)) {
         cards::lock Lock(m_root, true);
-    for (auto i : list) {
-        m_packageName = i;
+        for (auto i : list) {
+            m_packageName = i;
 
-        // Remove metadata about the package removed
-        if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+            // Remove metadata about the package removed
             removePackageFilesRefsFromDB(m_packageName);
 
-        // Remove the files on hd
-        removePackageFiles(m_packageName);
+            // Remove the files on hd
+            removePackageFiles(m_packageName);
+        }
+    } else {
+        for (auto i : list) {
+            m_packageName = i;
+
+            // Remove the files on hd
+            removePackageFiles(m_packageName);
+        }
     }
 }
 bool create::isACollection()
@@ -276,20 +283,21 @@ void create::run()
 		removePackageFiles(package.first, keep_list);
 	}
 
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META)) {
 	    cards::lock Lock(m_root, true);
 
+	    installArchivePackage(m_packageArchiveName,
+		    keep_list, non_install_files);
 
-    installArchivePackage(m_packageArchiveName,
-		keep_list, non_install_files);
-
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META)) {
 	    // Add the metadata about the package to the DB
 	    moveMetaFilesPackage(package.first,package.second);
 
 	    // Add the info about the files to the DB
 	    addPackageFilesRefsToDB(package.first, package.second);
     } else {
+	    installArchivePackage(m_packageArchiveName,
+		    keep_list, non_install_files);
+
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
-- 
2.43.0


From aae502ab80ac308be65c3ceba325bdcb160a8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 09/23] fix: refuse to upgrade a package that is only an alias
 of an installed one

---
 src/pkgadd.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index a6bfb06..48e3d58 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -77,7 +77,9 @@ void pkgadd::run()
 		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
 		treatErrors (package.first);
 	}
-	else if (!installed && m_upgrade)
+	// a package known only as an alias of another one has no record to upgrade
+	else if (m_upgrade
+		&& m_listOfPackages.find(package.first) == m_listOfPackages.end())
 	{
 		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
 		treatErrors(package.first);
-- 
2.43.0


From db0a0fa901c3c454cb7a3af1369fcd7c8c3587ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 10/23] fix: remember what has been installed, so that it is
 not installed twice

---
 src/pkgadd.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 48e3d58..a006138 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -134,6 +134,11 @@ void pkgadd::run()
 
 		// Add the info about the files to the DB
 		addPackageFilesRefsToDB(package.first, package.second);
+
+		// It is installed from now on, under each of its names
+		m_listOfAlias[package.first] = package.first;
+		for (auto i : package.second.alias())
+			m_listOfAlias[i] = package.first;
 	}
 	postRun();
 }
-- 
2.43.0


From b6f1f1a0cbbfd5ef74700bb5f921741677a646f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 11/23] fix: keep the automatic-install mark exactly:
 initialise it, preserve it in upgrades, carry it in memory

---
 src/create.cxx | 3 +++
 src/pkgadd.cxx | 3 +++
 src/pkgdbh.cxx | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index b38fc69..6dd0d32 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -273,8 +273,11 @@ void create::run()
 
 	std::set<std::string> keep_list;
 	if (m_upgrade) {
+		// The package keeps the mark it has, whatever is asked for
 		if (checkDependency(package.first))
 			setDependency();
+		else
+			resetDependency();
 
 		cards::lock Lock(m_root, true);
 		// Remove metadata about the package removed
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index a006138..f4bfcd9 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -114,8 +114,11 @@ void pkgadd::run()
 
 	std::set<std::string> keep_list;
 	if (m_upgrade) {
+		// The package keeps the mark it has, whatever is asked for
 		if (checkDependency(package.first))
 			setDependency();
+		else
+			resetDependency();
 
 		cards::lock Lock(m_root, true);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..2d5540b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -9,6 +9,7 @@ using __gnu_cxx::stdio_filebuf;
 
 pkgdbh::pkgdbh(const std::string& name)
 	: m_utilName(name)
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
@@ -18,6 +19,7 @@ pkgdbh::pkgdbh(const std::string& name)
 }
 pkgdbh::pkgdbh()
 	: m_utilName("pkgdbh")
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
@@ -693,12 +695,17 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			}
 		}
 	}
+	info.dependency(m_dependency);
 	if (m_dependency) {
 		std::string file = packagenamedir + PKG_META;
 		fileContent.insert("d1");
 		std::ofstream out(file);
 		for ( auto i: fileContent) out << i << std::endl;
 		out.close();
+		if (!out) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_CREATE_FILE;
+			treatErrors(file);
+		}
 		m_dependency=false;
 	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
-- 
2.43.0


From 92e6f7fdbcecb5978edcb86073e3b62156fa168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 12/23] fix: follow dependencies recorded under another name of
 a package

---
 src/pkgrm.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index 14d24b3..c13bed0 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -20,6 +20,12 @@ void pkgrm::getListOfManInstalledPackages ()
 }
 void pkgrm::getDirectDependencies(std::string& name)
 {
+	// A dependency can be recorded under another name of the package
+	if ( m_listOfPackages.find(name) == m_listOfPackages.end() ) {
+		auto alias = m_listOfAlias.find(name);
+		if ( alias != m_listOfAlias.end() )
+			name = alias->second;
+	}
 	bool found = false;
 	for ( auto i : m_listofDependencies ) {
 		if ( name == i ) {
-- 
2.43.0


From e6209b9aab41923b7d95f1f4e92ba1af1b3e4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 13/23] fix: do not list a removed package again as an empty
 one

---
 src/pkgdbh.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 2d5540b..01323d9 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -916,7 +916,6 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
-- 
2.43.0


From 869114d3b3ddd054a2100e3b2a14bc7bdb6591a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:27 +0000
Subject: [PATCH 14/23] fix: a package starts with no build date, size, release
 or mark

The numeric members were left uninitialised, so a package whose metadata
has no build date or size line was loaded with whatever was in memory.
---
 src/db.cxx  | 2 +-
 src/pkg.cxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cxx b/src/db.cxx
index 899f2fe..895f07e 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -5,8 +5,8 @@
 namespace cards {
 
 db::db()
+	: m_space(0),m_install(0),m_dependency(false)
 {
-	//nothing todo ATM
 }
 db::~db()
 {
diff --git a/src/pkg.cxx b/src/pkg.cxx
index 2c41e0b..ac54613 100644
--- a/src/pkg.cxx
+++ b/src/pkg.cxx
@@ -4,8 +4,8 @@
 
 namespace cards {
 pkg::pkg()
+	: m_release(0),m_build(0)
 {
-// nothing to do ATM
 }
 pkg::~pkg()
 {
-- 
2.43.0


From 47d5f0799563b4ab71c31f4cc48db4d96efb45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:02 +0000
Subject: [PATCH 15/23] fix: refuse to remove a base or needed package under
 another of its names

The in-use check compared only the name as given, so an alias of a package
that others depend on was accepted; the collection of a package named by an
alias was looked up under the alias and found empty, so a base package could
be removed without being forced; group packages got the collection of the
main package.
---
 src/remove.cxx | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..f478674 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -35,9 +35,15 @@ remove::remove(const std::string& commandName,
 			treatErrors(i);
 		}
 
+		// if it's an alias get the real name
+		std::string name = i;
+		auto realName = m_listOfAlias.find(i);
+		if (realName != m_listOfAlias.end())
+			name = realName->second;
+
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if ((i == k.first) || (name == k.first)) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -62,10 +68,13 @@ remove::remove(const std::string& commandName,
 			}
 		}
 		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
-			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+			PackageToRemove.first.clear();
+			PackageToRemove.second.clear();
+			auto package = m_listOfPackages.find(name);
+			if (package != m_listOfPackages.end()) {
+				PackageToRemove.first = name;
+				PackageToRemove.second = package->second.collection();
+			}
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
@@ -80,8 +89,13 @@ remove::remove(const std::string& commandName,
 		}
 	}
 	for ( auto i : groupSetPackagesToRemove ) {
-		if (checkPackageNameExist(i.first))
-			listOfPackagesToRemove.insert(i);
+		if (checkPackageNameExist(i.first)) {
+			PackageToRemove = i;
+			auto package = m_listOfPackages.find(i.first);
+			if (package != m_listOfPackages.end())
+				PackageToRemove.second = package->second.collection();
+			listOfPackagesToRemove.insert(PackageToRemove);
+		}
 	}
 	for ( auto i : listOfPackagesToRemove ) {
 		if (i.first.size() == 0 )
-- 
2.43.0


From 9876cf4b7100d69eb39fc35e7ecc97543b93e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:02 +0000
Subject: [PATCH 16/23] fix: build each repository entry from its own stanza
 only

A tag missing from a stanza kept the value of the stanza before it, a second
empty line registered the last package again without its lists, and looking
up the collection of a main package that is not in the index added an empty
entry for it.
---
 src/cache.cxx   |  2 +-
 src/pkgrepo.cxx | 40 ++++++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/cache.cxx b/src/cache.cxx
index 081c2ee..0f9200b 100644
--- a/src/cache.cxx
+++ b/src/cache.cxx
@@ -5,8 +5,8 @@
 namespace cards {
 
 cache::cache()
+	: m_status(STATUS_ENUM_UNKNOWN), m_size(0), m_installed(false)
 {
-	m_status = STATUS_ENUM_UNKNOWN;
 }
 cache::~cache()
 {
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..2a5e34a 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -391,15 +391,17 @@ void pkgrepo::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cache info;
-
     for (auto i : m_config.dirUrl()) {
-        info.dirName(i.depot + "/" + i.collection);
-        std::string repoFile = info.dirName()
+        // what a package starts with when the index says nothing about it
+        cache defaults;
+        cache info;
+
+        defaults.dirName(i.depot + "/" + i.collection);
+        std::string repoFile = defaults.dirName()
             + PKG_REPO_META;
 
-        info.collection(i.collection);
-        info.origin(i.url
+        defaults.collection(i.collection);
+        defaults.origin(i.url
             + "/"
             + getMachineType()
             + "/"
@@ -430,10 +432,15 @@ void pkgrepo::parse()
             if (p[0] == '@') {
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
+                    info = defaults;
                     info.fileName(p.substr(1));
-                    info.group("");
-                    info.nls("");
-                    info.baseName("");
+                    pkgName.clear();
+                    pkgAlias.clear();
+                    pkgSet.clear();
+                    pkgCategories.clear();
+                    pkgDependencies.clear();
+                    pkgConflicts.clear();
+                    pkgLibs.clear();
                     pkgFound = true;
                 }
                 continue;
@@ -521,10 +528,13 @@ void pkgrepo::parse()
                     continue;
                 }
             }
-            if (p.size() == 0) {
+            if (pkgFound && (p.size() == 0)) {
                 if ( (info.collection().size() == 0) &&
-                        (info.baseName().size() > 0) )
-                    info.collection(m_listOfPackages[info.baseName()].collection());
+                        (info.baseName().size() > 0) ) {
+                    auto base = m_listOfPackages.find(info.baseName());
+                    if (base != m_listOfPackages.end())
+                        info.collection(base->second.collection());
+                }
                 pkgFound = false;
                 info.libs(pkgLibs);
                 info.alias(pkgAlias);
@@ -532,12 +542,6 @@ void pkgrepo::parse()
                 info.categories(pkgCategories);
                 info.dependencies(pkgDependencies);
                 info.conflicts(pkgConflicts);
-                pkgAlias.clear();
-                pkgSet.clear();
-                pkgCategories.clear();
-                pkgDependencies.clear();
-                pkgConflicts.clear();
-                pkgLibs.clear();
                 m_listOfPackages[pkgName] = info;
                 continue;
             }
-- 
2.43.0


From 640628f5114b76b615f3f1a916dff200af09acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:48 +0000
Subject: [PATCH 17/23] fix: use the root given to the upgrade command as a
 directory

---
 src/upgrade.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..f0c9574 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -12,7 +12,8 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From 309caa201207509aa8bd715ca14b0d9f9068acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:39 +0000
Subject: [PATCH 18/23] fix: reject a package signature with an odd number of
 digits

---
 src/pkgrepo.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 2a5e34a..1bcb27a 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -987,6 +987,11 @@ bool pkgrepo::checkSign(const std::string& name)
     }
 
     std::string signature = m_listOfPackages[name].signature();
+    if (signature.length() % 2 != 0) {
+        EVP_MD_CTX_free(mdctx);
+        EVP_PKEY_free(key);
+        return false;
+    }
     std::vector<unsigned char> sigBytes(signature.length() / 2);
     for (size_t i = 0; i < signature.length(); i += 2)
         sigBytes[i / 2] = static_cast<unsigned char>(std::stoi(signature.substr(i, 2), nullptr, 16));
-- 
2.43.0


From b8036e8c421f576d08bc70e73c8e7ac3a772e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:21 +0000
Subject: [PATCH 19/23] fix: do not unpack in the current directory when the
 root cannot be entered

---
 src/pkgdbh.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 01323d9..c124c0b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1197,7 +1197,10 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	}
 
 	getcwd(buf, sizeof(buf));
-	chdir(m_root.c_str());
+	if (chdir(m_root.c_str()) != 0) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+		treatErrors(m_root);
+	}
 
 	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
 		ARCHIVE_OK; ++m_installedFilesNumber)
@@ -1253,7 +1256,10 @@ void pkgdbh::installArchivePackage
 			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 			treatErrors(filename);
 		}
-	chdir(m_root.c_str());
+	if (chdir(m_root.c_str()) != 0) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+		treatErrors(m_root);
+	}
 	absm_root = getcwd(buf, sizeof(buf));
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
-- 
2.43.0


From 3ba878d670216411a521d2d0e4a18b9d1fb7c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:43 +0000
Subject: [PATCH 20/23] fix: keep a base directory given with several trailing
 slashes when removing a file

---
 src/file_utils.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6e059a2..af534d2 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -213,12 +213,15 @@ void cleanupMetaFiles(const std::string& basedir)
 }
 void removeFile(const std::string& basedir, const std::string& filename)
 {
-  // a base directory given with a trailing slash is still the same directory
+  // trailing slashes do not name another directory
   std::string base = basedir;
-  if (base.size() > 1 && base.back() == '/')
+  while (base.size() > 1 && base.back() == '/')
     base.pop_back();
+  std::string name = filename;
+  while (name.size() > 1 && name.back() == '/')
+    name.pop_back();
 
-  if (filename != basedir && filename != base && !remove(filename.c_str())) {
+  if (name != base && !remove(filename.c_str())) {
     char* path = strdup(filename.c_str());
     removeFile(basedir, dirname(path));
     free(path);
-- 
2.43.0


From 1006e92f4f5208480ef1ac3168a01ab721241b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:28 +0000
Subject: [PATCH 21/23] fix: remove the metadata files of the alternative root,
 not those of the real one

---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index af534d2..94868c9 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		removeFile ( basedir, basedir + "/.INFO");
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		removeFile ( basedir, basedir + "/.META");
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		removeFile ( basedir, basedir + "/.PRE");
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		removeFile ( basedir, basedir + "/.POST");
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		removeFile ( basedir, basedir + "/.MTREE");
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		removeFile ( basedir, basedir + "/.README");
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index c124c0b..3ba2136 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -664,7 +664,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	removeFile (m_root, m_root + ".MTREE");
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From d16e19360e40da1e9c27a60628add9f81e85f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:09 +0000
Subject: [PATCH 22/23] fix: give every port an index of its own, even when its
 recipe cannot be read

---
 src/pkgfile.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..c3ec16f 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -83,9 +83,7 @@ void pkgfile::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cards::port info;
     unsigned int index = 0;
-    bool found = false;
 
     for (auto i : m_config.dirUrl()) {
         DIR* d;
@@ -101,6 +99,12 @@ void pkgfile::parse()
                 if (!checkFileExist(Pkgfile))
                     continue;
 
+                // each port starts afresh and has an index of its own,
+                // even when its recipe cannot be read
+                cards::port info;
+                bool found = false;
+                info.index(index);
+                ++index;
                 info.collection(i.collection);
                 info.release(1);
                 std::vector<std::string> pkgFileContent;
@@ -169,9 +173,7 @@ void pkgfile::parse()
                 // and probably generate a full value with echo $version-$release
                 // info.version(getVariable(Pkgfile, "version"));
                 info.dependencies(parseDelimitedSetList(s, " "));
-                info.index(index);
                 m_listOfPackages[portName] = info;
-                ++index;
             }
         }
     }
-- 
2.43.0


From 5308f1a07bc6fdd421f97ddcef3be4f36a08d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:22 +0000
Subject: [PATCH 23/23] fix: compare device files by their device number, not
 by the file system they lie on

---
 src/file_utils.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 94868c9..13f6ce0 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -148,11 +148,11 @@ bool checkFilesEqual(const std::string& file1, const std::string& file2)
   }
   // Character devices
   else if (S_ISCHR(buf1.st_mode) && S_ISCHR(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
   // Block devices
   else if (S_ISBLK(buf1.st_mode) && S_ISBLK(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
 
   return false;
-- 
2.43.0

