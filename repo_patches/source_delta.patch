From 4b60ad0feb60fb5f60d7e03a59569b95e236c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 001/108] fix: initialise the scalar members of pkginfo,
 pkgdbh, db and pkg

pkginfo's default constructor left m_runtimelibs_mode and m_number_mode
indeterminate, pkgdbh never set m_dependency (which decides whether a package
is recorded as automatically installed) and a db/pkg built for a record without
S, B or r line held indeterminate values.
---
 src/db.cxx      | 4 +++-
 src/pkg.cxx     | 3 ++-
 src/pkgdbh.h    | 6 +++---
 src/pkginfo.cxx | 2 ++
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/db.cxx b/src/db.cxx
index 899f2fe..5e27ea9 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -5,8 +5,10 @@
 namespace cards {
 
 db::db()
+	: m_space(0)
+	, m_install(0)
+	, m_dependency(false)
 {
-	//nothing todo ATM
 }
 db::~db()
 {
diff --git a/src/pkg.cxx b/src/pkg.cxx
index 2c41e0b..6ee080e 100644
--- a/src/pkg.cxx
+++ b/src/pkg.cxx
@@ -4,8 +4,9 @@
 
 namespace cards {
 pkg::pkg()
+	: m_release(0)
+	, m_build(0)
 {
-// nothing to do ATM
 }
 pkg::~pkg()
 {
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 28fd85e..a3f1fb6 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -31,10 +31,10 @@ class pkgdbh {
     std::set<std::string>   m_filesList;
     std::set<std::string>   m_listOfPackagesNames;
 
-    unsigned int            m_filesNumber;
-    unsigned int            m_installedFilesNumber;
+    unsigned int            m_filesNumber = 0;
+    unsigned int            m_installedFilesNumber = 0;
 
-    bool                    m_dependency;
+    bool                    m_dependency = false;
     bool                    m_DB_Empty;
 
     void                    runLastPostInstall();
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index d71f7f0..36d2c94 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -26,10 +26,12 @@ pkginfo::pkginfo(const std::string& commandName)
 pkginfo::pkginfo()
     : pkgdbh("pkginfo")
     , m_runtimedependencies_mode(0)
+    , m_runtimelibs_mode(0)
     , m_footprint_mode(0)
     , m_archiveinfo(0)
     , m_metainfo(0)
     , m_installed_mode(0)
+    , m_number_mode(0)
     , m_list_mode(0)
     , m_owner_mode(0)
     , m_details_mode(0)
-- 
2.43.0


From 3cda856d0d2190ab911a0b89e0e2a53ace0da3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 002/108] fix: cards upgrade --root: keep the '/' between the
 root and the database path

---
 src/upgrade.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..f0c9574 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -12,7 +12,8 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From 7853d3b9d8a03fdb0ba649f76533b3b2abe46c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 003/108] fix: clean up .META, .MTREE, .PRE and .POST inside
 the installation root

With -r ROOT the left-over meta files were looked for in ROOT but the file
removed was the one of the running system ('/.MTREE' and friends), and
ROOT/.MTREE stayed behind after every installation.
---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..a548c99 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		unlink((basedir + "/.INFO").c_str());
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		unlink((basedir + "/.META").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		unlink((basedir + "/.PRE").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		unlink((basedir + "/.POST").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		unlink((basedir + "/.MTREE").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		unlink((basedir + "/.README").c_str());
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..82280d7 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -662,7 +662,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	unlink((m_root + "/.MTREE").c_str());
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From f8e3e271d8305fb74ef4910df26325e9f10374ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 004/108] fix: make a relative installation root absolute

pkgadd changes to the root before it moves the meta data, so with a relative
-r the files were installed and the package was never recorded.
---
 src/file_utils.cxx | 9 +++++++++
 src/file_utils.h   | 1 +
 src/install.cxx    | 2 +-
 src/pkgadd.cxx     | 2 +-
 src/pkgdbh.cxx     | 2 +-
 src/pkginfo.cxx    | 2 +-
 src/remove.cxx     | 2 +-
 src/upgrade.cxx    | 2 +-
 8 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index a548c99..daf609e 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -48,6 +48,15 @@ std::string trimFileName(const std::string& filename)
 
   return result;
 }
+std::string getAbsolutePath(const std::string& path)
+{
+	if (path.empty() || path[0] == '/')
+		return path;
+	char cwd[PATH_MAX];
+	if (getcwd(cwd, sizeof(cwd)) == nullptr)
+		return path;
+	return std::string(cwd) + "/" + path;
+}
 time_t getEpochModifyTimeFile(const std::string& filename)
 {
 	struct stat buf;
diff --git a/src/file_utils.h b/src/file_utils.h
index fc50f9f..62830b1 100644
--- a/src/file_utils.h
+++ b/src/file_utils.h
@@ -46,6 +46,7 @@ struct fileToDownload {
 };
 void* getDatas(void* var, FILE* file, long offset, size_t size, size_t nmemb);
 std::string trimFileName(const std::string& filename);
+std::string getAbsolutePath(const std::string& path);
 time_t getEpochModifyTimeFile(const std::string& filename);
 std::string getDateFromEpoch(const time_t& epoch);
 std::string getModifyTimeFile(const std::string& filename);
diff --git a/src/install.cxx b/src/install.cxx
index abb288d..30c5b79 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -101,7 +101,7 @@ install::install(const CardsArgumentParser& argParser,
 void install::parseArguments()
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+		m_root = getAbsolutePath(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT))
 			+ m_root;
 
 	if (getuid()) {
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..c875db2 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -23,7 +23,7 @@ void pkgadd::parseArguments(int argc, char** argv)
 		std::string option(argv[i]);
 		if (option == "-r" || option == "--root") {
 			assertArgument(argv, argc, i);
-			m_root = argv[i + 1] + m_root;
+			m_root = getAbsolutePath(argv[i + 1]) + m_root;
 			i++;
 		} else if (option == "-i" || option == "--ignore") {
 			m_runPrePost = false;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 82280d7..c78d3b5 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -38,7 +38,7 @@ void pkgdbh::parseArguments(int argc, char** argv)
 		std::string option(argv[i]);
 		if (option == "-r" || option == "--root") {
 			assertArgument(argv, argc, i);
-			m_root = argv[i + 1] + m_root;
+			m_root = getAbsolutePath(argv[i + 1]) + m_root;
 			i++;
 		} else if (option == "-p" || option == "--progress") {
 			m_progress = true;
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 36d2c94..28f02ff 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -47,7 +47,7 @@ void pkginfo::parseArguments(int argc, char** argv)
         std::string option(argv[i]);
         if (option == "-r" || option == "--root") {
             assertArgument(argv, argc, i);
-            m_root = argv[i + 1] + m_root;
+            m_root = getAbsolutePath(argv[i + 1]) + m_root;
             i++;
         } else if (option == "-i" || option == "--installed") {
             m_installed_mode += 1;
diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..7bd9c57 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -10,7 +10,7 @@ remove::remove(const std::string& commandName,
 	: pkgrm(commandName),m_argParser(argParser)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+		m_root = getAbsolutePath(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT))
 			+ m_root;
 
 	m_progress = true;
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index f0c9574..8985e31 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -12,7 +12,7 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+		m_root = getAbsolutePath(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT))
 			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
-- 
2.43.0


From 07aa88b12db45b56c784e887c1a4cba5cc562505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 005/108] fix: come back to the caller's directory after an
 installation

cards install ./a ./b looked for the second archive relative to the root,
where the installation of the first one had moved.
---
 src/pkgadd.cxx | 7 +++++++
 src/pkgdbh.cxx | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index c875db2..8632179 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -66,6 +66,10 @@ void pkgadd::preRun()
 }
 void pkgadd::run()
 {
+	char cwd[PATH_MAX];
+	if (getcwd(cwd, sizeof(cwd)) == nullptr)
+		strcpy(cwd, "/");
+
 	// Reading the archiving to find a list of files
 	std::pair<std::string, cards::db> package = openArchivePackage(m_packageArchiveName);
 
@@ -134,6 +138,9 @@ void pkgadd::run()
 		addPackageFilesRefsToDB(package.first, package.second);
 	}
 	postRun();
+
+	// The installation moved to the root, next archive can have a relative name
+	chdir(cwd);
 }
 void pkgadd::postRun()
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index c78d3b5..4e66125 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1424,6 +1424,8 @@ void pkgdbh::runLastPostInstall()
 {
 	if ( m_postInstallList.size() > 0 ) {
 		progressInfo(cards::ACTION_ENUM_PKG_POSTINSTALL_START);
+		// Arguments are relative to the root
+		chdir(m_root.c_str());
 		process p;
 		std::string args;
 		for (auto i : m_postInstallList)
-- 
2.43.0


From be97307454aa1fb872114a716b04f363a6931976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 006/108] fix: run a post-install tool only for the installed
 files its rule matches

A file no rule matched got the event of the last rule looked at, and a file
kept out by an INSTALL rule was still handed to the tools.
---
 src/pkgadd.cxx | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 8632179..7fbac3a 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -246,21 +246,18 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
 		j != scripts_found.rend();
 		j++) {
-			a.first=i;
-			a.second=(*j).event;
-
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				break;
+				if (install_file && (*j).action) {
+					a.second = (*j).event;
+					if ( a.second == cards::LDCONF ) {
+						a.first="";
+					} else {
+						a.first=i;
+					}
+					m_postInstallList.insert(a);
 				}
-		}
-		if (install_file) {
-			if ( a.second == cards::LDCONF ) {
-				a.first="";
-			} else {
-				a.first=i;
+				break;
 			}
-			m_postInstallList.insert(a);
 		}
 	}
 	scripts_found.clear();
-- 
2.43.0


From 67b9ae6a69a785093cab3fb8b9c5e6b48bb5d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 007/108] fix: a script killed by a signal, or which could not
 be started, has failed

status / 256 is 0 for both, so a pre-install script which crashed did not stop
the installation.
---
 src/process.cxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..fc06c73 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -5,6 +5,15 @@
 
 #include "process.h"
 
+// 0 only for a child which ran and exited with 0
+static int exitCode(int status)
+{
+    if (status == -1)
+        return EXIT_FAILURE;
+    if (WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+    return WEXITSTATUS(status);
+}
 process::process()
 {
 }
@@ -110,7 +119,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +141,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::executeShell()
@@ -191,7 +200,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +222,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
-- 
2.43.0


From b40ba0cc22d19525448f8e2834d16c4c623b6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 008/108] fix: one lock from the reading of the database to the
 last reference written

The database was read, and the conflicts looked for, before it was locked; the
lock was given back between the removal of the old version and the installation
of the new one; and every reader removed the /.META an installation had just
extracted.  Two commands running together could both install, or leave a
package without its record.

The scripts still run without the lock (they can query the database), under a
name of their own.
---
 src/create.cxx  |  1 +
 src/pkgadd.cxx  | 72 ++++++++++++++++++++++++++++++-------------------
 src/pkgadd.h    | 13 +++++++++
 src/pkgdbh.cxx  | 28 ++++++++++++++-----
 src/pkgdbh.h    |  7 +++++
 src/pkgrm.cxx   |  1 +
 src/upgrade.cxx |  2 +-
 7 files changed, 89 insertions(+), 35 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..df3d67f 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -293,6 +293,7 @@ void create::run()
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+	takePostInstallScript();
 	postRun();
 
 }
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 7fbac3a..98ce4bf 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -75,17 +75,7 @@ void pkgadd::run()
 
 	readRulesFile();
 
-	bool installed = checkPackageNameExist(package.first);
-	if (installed && !m_upgrade)
-	{
-		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
-		treatErrors (package.first);
-	}
-	else if (!installed && m_upgrade)
-	{
-		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
-		treatErrors(package.first);
-	}
+	assertInstallOrUpgrade(package.first);
 
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
@@ -93,11 +83,15 @@ void pkgadd::run()
 	if (m_runPrePost)
 		preRun();
 
+	// Nobody else works on the database, from the checks to the last reference
+	std::unique_ptr<cards::lock> Lock(new cards::lock(m_root, true));
+	reloadDatabase();
+	assertInstallOrUpgrade(package.first);
+
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
 		package.second);
 	if (!conflicting_files.empty()) {
 		if (m_force) {
-			cards::lock Lock(m_root, true);
 			std::set<std::string> keep_list;
 			// Don't remove files matching the rules in configuration
 			if (m_upgrade)
@@ -119,46 +113,68 @@ void pkgadd::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 	}
-	{
-		cards::lock Lock(m_root, true);
-		// Installation progressInfo of the files on the HD
-		installArchivePackage(m_packageArchiveName,
-			keep_list, non_install_files);
+	// Installation progressInfo of the files on the HD
+	installArchivePackage(m_packageArchiveName,
+		keep_list, non_install_files);
 
-		// Add the metadata about the package to the DB
-		moveMetaFilesPackage(package.first,package.second);
+	// Add the metadata about the package to the DB
+	moveMetaFilesPackage(package.first,package.second);
+
+	// Add the info about the files to the DB
+	addPackageFilesRefsToDB(package.first, package.second);
+
+	takePostInstallScript();
+	Lock.reset();
 
-		// Add the info about the files to the DB
-		addPackageFilesRefsToDB(package.first, package.second);
-	}
 	postRun();
 
 	// The installation moved to the root, next archive can have a relative name
 	chdir(cwd);
 }
-void pkgadd::postRun()
+void pkgadd::assertInstallOrUpgrade(const std::string& name)
+{
+	bool installed = checkPackageNameExist(name);
+	if (installed && !m_upgrade)
+	{
+		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
+		treatErrors(name);
+	}
+	else if (!installed && m_upgrade)
+	{
+		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
+		treatErrors(name);
+	}
+}
+void pkgadd::takePostInstallScript()
 {
 	if (checkFileExist(PKG_PRE_INSTALL))
 		removeFile(m_root,PKG_PRE_INSTALL);
-	if (checkFileExist(PKG_POST_INSTALL))
+	m_postInstallScript.clear();
+	if (checkFileExist(PKG_POST_INSTALL)) {
+		m_postInstallScript = std::string(PKG_POST_INSTALL) + "." + itos(getpid());
+		rename(PKG_POST_INSTALL, m_postInstallScript.c_str());
+	}
+}
+void pkgadd::postRun()
+{
+	if (checkFileExist(m_postInstallScript))
 	{
 		if ( ! m_runPrePost) {
-			removeFile(m_root,PKG_POST_INSTALL);
+			removeFile(m_root,m_postInstallScript);
 			return;
 		}
 		progressInfo(cards::ACTION_ENUM_PKG_POSTINSTALL_START);
-		process postinstall(SHELL,PKG_POST_INSTALL, 0 );
+		process postinstall(SHELL,m_postInstallScript, 0 );
 		if (postinstall.executeShell()) {
 			std::cerr << _("WARNING Run post-install FAILED, continue") << std::endl;
 		}
 		progressInfo(cards::ACTION_ENUM_PKG_POSTINSTALL_END);
-		removeFile(m_root,PKG_POST_INSTALL);
+		removeFile(m_root,m_postInstallScript);
 	}
 }
 void pkgadd::printHelp() const
diff --git a/src/pkgadd.h b/src/pkgadd.h
index d8b8171..925b0f4 100644
--- a/src/pkgadd.h
+++ b/src/pkgadd.h
@@ -31,6 +31,19 @@ protected:
 	std::string 	m_packageArchiveName;
 	bool 			m_upgrade;
 	bool 			m_force;
+	std::string 	m_postInstallScript;
+
+	/**
+	 * Check the package is installed if it's an upgrade, not installed otherwise
+	 */
+	void			assertInstallOrUpgrade(const std::string& name);
+
+	/**
+	 * Give the post-install script just extracted a name of our own, so the
+	 * next installation can start before it's run
+	 */
+	void			takePostInstallScript();
+
 	std::set<std::string>
 					applyInstallRules(const std::string& name,
 						cards::db& info,
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 4e66125..7c8ecad 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -468,7 +468,6 @@ pkgdbh::buildSimpleDependenciesDatabase()
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
-	cleanupMetaFiles(m_root);
 	if (!m_DB_Empty)
 		return;
 
@@ -647,6 +646,18 @@ void pkgdbh::buildDatabase(const bool& files)
 	}
 	progressInfo(ACTION_ENUM_DB_OPEN_END);
 }
+void pkgdbh::reloadDatabase()
+{
+	const bool progress = m_progress;
+	cleanupMetaFiles(m_root);
+	m_progress = false;
+	m_listOfPackages.clear();
+	m_listOfPackagesNames.clear();
+	m_listOfAlias.clear();
+	m_DB_Empty = true;
+	buildDatabase(true);
+	m_progress = progress;
+}
 void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 {
 	std::set<std::string> metaFilesList;
@@ -1193,19 +1204,23 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	getcwd(buf, sizeof(buf));
 	chdir(m_root.c_str());
 
+	// The database is not locked, another installation can be there too
+	const std::string script = std::string(PKG_PRE_INSTALL) + "." + itos(getpid());
+
 	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
 		ARCHIVE_OK; ++m_installedFilesNumber)
 	{
 		const char *archive_filename = archive_entry_pathname(entry);
 		if ( strcmp(archive_filename,PKG_PRE_INSTALL) == 0)
 		{
+			archive_entry_set_pathname(entry, script.c_str());
 			unsigned int flags = ARCHIVE_EXTRACT_OWNER | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_UNLINK;
 			if (archive_read_extract(archive, entry, flags) != ARCHIVE_OK)
 			{
 				const char* msg = archive_error_string(archive);
 				std::cerr << m_utilName
 					<< _(": could not install ")
-					<< archive_filename
+					<< PKG_PRE_INSTALL
 					<< " : " << msg << std::endl;
 				exit(EXIT_FAILURE);
 			}
@@ -1215,14 +1230,15 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 
 	}
 	FREE_ARCHIVE(archive);
-	if (checkFileExist(PKG_PRE_INSTALL))
+	if (checkFileExist(script))
 	{
 		progressInfo(cards::ACTION_ENUM_PKG_PREINSTALL_START);
-		process preinstall(SHELL,PKG_PRE_INSTALL, 0 );
-		if (preinstall.executeShell()) {
+		process preinstall(SHELL,script, 0 );
+		int status = preinstall.executeShell();
+		removeFile(m_root,script);
+		if (status) {
 			exit(EXIT_FAILURE);
 		}
-		removeFile(m_root,PKG_PRE_INSTALL);
 		progressInfo(cards::ACTION_ENUM_PKG_PREINSTALL_END);
 	}
 	chdir(buf);
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index a3f1fb6..344dce0 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -12,6 +12,7 @@
 #include "process.h"
 
 #include <algorithm>
+#include <memory>
 
 #include <ext/stdio_filebuf.h>
 #include <grp.h>
@@ -48,6 +49,12 @@ protected:
 
     void                    buildSimpleDependenciesDatabase();
 
+    /**
+     * Read the database again, once it is locked: what was read before
+     * can have been changed by another process.
+     */
+    void                    reloadDatabase();
+
     void                    addPackageFilesRefsToDB(const std::string& name,
                                 const cards::db& info);
 
diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index 14d24b3..bab9623 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -66,6 +66,7 @@ void pkgrm::run()
 	}
 
 	cards::lock Lock(m_root, true);
+	reloadDatabase();
 
 	readRulesFile();
 
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 8985e31..9d07d3a 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -153,7 +153,7 @@ void upgrade::upgradePackages()
 	}
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
-		buildDatabase(true);
+		reloadDatabase();
 		removePackageFilesRefsFromDB(i);
 		removePackageFiles(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
-- 
2.43.0


From 49dc4513f91a8029a3bb04d2953b5f81da7b3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 009/108] fix: a member whose name does not convert to the
 locale is not the end of the archive

In the C locale a pax archive with a non-ASCII name was installed up to that
member only, with a success status.
---
 src/archive.cxx |  2 +-
 src/archive.h   | 11 +++++++++++
 src/pkgdbh.cxx  | 12 ++++--------
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..6c588e5 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -89,7 +89,7 @@ void archive::extractFileContent
     }
     unsigned int i = 0;
     int64_t entry_size;
-    while (archive_read_next_header(ar, &ae) == ARCHIVE_OK) {
+    while (readNextHeader(ar, &ae)) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
diff --git a/src/archive.h b/src/archive.h
index cfcb083..7908afb 100644
--- a/src/archive.h
+++ b/src/archive.h
@@ -11,6 +11,17 @@
 #include <archive.h>
 #include <archive_entry.h>
 
+/**
+ * Next member of an archive. A warning is for a name which does not convert to
+ * the current locale: the member is there and the next ones as well.
+ */
+inline bool readNextHeader(struct archive* ar, struct archive_entry** entry)
+{
+	const int result = archive_read_next_header(ar, entry);
+	return (result == ARCHIVE_OK || result == ARCHIVE_WARN)
+		&& archive_entry_pathname(*entry) != nullptr;
+}
+
 class archive {
 
 	unsigned int long        m_size;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 7c8ecad..3e2040b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1207,8 +1207,7 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	// The database is not locked, another installation can be there too
 	const std::string script = std::string(PKG_PRE_INSTALL) + "." + itos(getpid());
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-		ARCHIVE_OK; ++m_installedFilesNumber)
+	for (m_installedFilesNumber = 0; readNextHeader(archive, &entry); ++m_installedFilesNumber)
 	{
 		const char *archive_filename = archive_entry_pathname(entry);
 		if ( strcmp(archive_filename,PKG_PRE_INSTALL) == 0)
@@ -1268,8 +1267,7 @@ void pkgdbh::installArchivePackage
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++m_installedFilesNumber) {
+	for (m_installedFilesNumber = 0; readNextHeader(archive, &entry); ++m_installedFilesNumber) {
 
 		progressInfo(cards::ACTION_ENUM_PKG_INSTALL_RUN);
 
@@ -1576,8 +1574,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 			}
       //         throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	for (i = 0; readNextHeader(archive, &entry); ++i) {
 
 		mode_t mode = archive_entry_mode(entry);
 
@@ -1609,8 +1606,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 				treatErrors(filename);
         // throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 			}
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	for (i = 0; readNextHeader(archive, &entry); ++i) {
 		mode_t mode = archive_entry_mode(entry);
 
 		// Access permissions
-- 
2.43.0


From 68cab78438bfaab1b0066362f9c0fa130dce67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 010/108] fix: refuse a truncated or damaged archive before
 changing anything

The extraction stopped at the first unreadable member, and the package was
recorded as installed, with a success status.
---
 src/pkgdbh.cxx | 41 +++++++++++++++++++++++++++++++++++++++++
 src/pkgdbh.h   |  6 ++++++
 2 files changed, 47 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 3e2040b..8cf7cd5 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1129,11 +1129,52 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 
 	return files;
 }
+void pkgdbh::assertArchiveComplete(const std::string& filename)
+{
+	struct archive* archive;
+	struct archive_entry* entry;
+	const void* block;
+	size_t size;
+	int64_t offset;
+	int result = ARCHIVE_OK;
+
+	archive = archive_read_new();
+	INIT_ARCHIVE(archive);
+	if (archive_read_open_filename(archive,
+		filename.c_str(),
+		DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
+	{
+		m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+		treatErrors(filename);
+	}
+	while (result != ARCHIVE_EOF && result >= ARCHIVE_WARN)
+	{
+		result = archive_read_next_header(archive, &entry);
+		if (result == ARCHIVE_EOF || result < ARCHIVE_WARN)
+			break;
+		if (archive_entry_pathname(entry) == nullptr) {
+			result = ARCHIVE_FATAL;
+			break;
+		}
+		do
+			result = archive_read_data_block(archive, &block, &size, &offset);
+		while (result == ARCHIVE_OK);
+		if (result == ARCHIVE_EOF) // of the member
+			result = ARCHIVE_OK;
+	}
+	FREE_ARCHIVE(archive);
+	if (result != ARCHIVE_EOF)
+	{
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(filename);
+	}
+}
 std::pair<std::string, cards::db>
 pkgdbh::openArchivePackage(const std::string& filename)
 {
 	std::pair<std::string, cards::db> result;
 	archive packageArchive(filename);
+	assertArchiveComplete(filename);
 
 	std::string basename(filename, filename.rfind('/') + 1);
 	m_filesNumber = packageArchive.size();
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 344dce0..17784f1 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -77,6 +77,12 @@ protected:
     std::set<std::string>   getConflictsFilesList(const std::string& name, cards::db& info);
 
     // Archive Package handling
+    /**
+     * Read the archive to its end: a truncated or damaged one has to be
+     * refused before anything is changed
+     */
+    void                    assertArchiveComplete(const std::string& filename);
+
     std::pair<std::string, cards::db>
                             openArchivePackage(const std::string& filename);
     void                    extractAndRunPREfromPackage(const std::string& filename);
-- 
2.43.0


From 5dbf6560f12e7183f91b69dcb7b11be3c53da2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 011/108] fix: read lines of any length, with or without the
 final newline

The last character of a line without newline was lost (a .META, .MTREE or META
ending without one), lines longer than BUFSIZ were cut in two and an empty
.META or a NUL at the start of a line was written before the buffer.
---
 src/archive.cxx    | 14 ++++++--------
 src/conf.cxx       | 12 +++---------
 src/file_utils.cxx | 30 +++++++++++++-----------------
 src/files.cxx      | 11 +++--------
 src/query.cxx      | 10 +++-------
 5 files changed, 28 insertions(+), 49 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 6c588e5..77aaea1 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -87,17 +87,15 @@ void archive::extractFileContent
         m_actualError = cards::CANNOT_OPEN_ARCHIVE;
         treatErrors(m_fileName);
     }
-    unsigned int i = 0;
-    int64_t entry_size;
     while (readNextHeader(ar, &ae)) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
-            entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
-            archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
-            list = parseDelimitedVectorList(fC,'\n');
-            free(fC);
+            std::string content;
+            char buffer[BUFSIZ];
+            la_ssize_t length;
+            while ((length = archive_read_data(ar, buffer, sizeof(buffer))) > 0)
+                content.append(buffer, length);
+            list = parseDelimitedVectorList(content,'\n');
             break;
         }
     }
diff --git a/src/conf.cxx b/src/conf.cxx
index 7946c77..aa19d3e 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -12,16 +12,11 @@ conf::conf(const std::string& filename)
 }
 void conf::parseConfig()
 {
-	FILE* fp = fopen(m_filename.c_str(), "r");
-	if (!fp)
+	std::ifstream in(m_filename);
+	if (!in)
 		return;
-	char line[BUFSIZ];
 	std::string s;
-	while (fgets(line, BUFSIZ, fp)) {
-		if (line[strlen(line)-1] == '\n' ) {
-			line[strlen(line)-1] = '\0';
-		}
-		s = line;
+	while (getline(in, s)) {
 		bool found = false;
 
 		// strip comments
@@ -123,7 +118,6 @@ void conf::parseConfig()
 			}
 		}
 	}
-	fclose(fp);
 	if (!m_url.empty()) {
 		for (auto& i : m_dirUrl) {
 			if (i.url.empty())
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index daf609e..dc7977c 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -353,35 +353,31 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 }
 int parseFile(std::set<std::string>& fileContent, const char* fileName)
 {
-	FILE* fp = fopen(fileName, "r");
+	std::ifstream in(fileName);
 
-	if (!fp)
+	if (!in)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.insert(input);
-  }
-  fclose(fp);
-  return 0;
+	while (getline(in, line))
+		fileContent.insert(line);
+
+	return 0;
 }
 
 int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 {
-	FILE* fp = fopen(fileName, "r");
+	std::ifstream in(fileName);
 
-	if (!fp)
+	if (!in)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
+
+	while (getline(in, line))
+		fileContent.push_back(line);
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.push_back(input);
-	}
-	fclose(fp);
 	return 0;
 }
 int parseFile(std::string& Depends, const char* key, const char* fileName)
diff --git a/src/files.cxx b/src/files.cxx
index 573fd95..8d291fa 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -29,13 +29,10 @@ void files::parse() {
         pkgFound = false;
 
         // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
+        std::ifstream in(s);
 
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
+        std::string line;
+        while (getline(in, line)) {
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
 				if (pos != std::string::npos) {
@@ -47,12 +44,10 @@ void files::parse() {
 				if (line.size() > 0) {
 					std::cout << line << std::endl;
 				} else {
-					fclose(fp);
 					return;
 				}
 			}
         }
-        fclose(fp);
     }
 }
 
diff --git a/src/query.cxx b/src/query.cxx
index 29f4279..24e0edc 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -46,13 +46,10 @@ void query::parse() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
 
         // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
+        std::ifstream in(s);
 
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
+        std::string line;
+        while (getline(in, line)) {
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
                 continue;
@@ -70,7 +67,6 @@ void query::parse() {
                 }
             }
         }
-        fclose(fp);
     }
     regfree(&preg);
     if (listOfFiles.size() > 1) {
-- 
2.43.0


From 27d39c9e23f05d4e6b2b3474a20cf4544420a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 012/108] fix: a malformed dependency or release line in the
 meta data does not abort

A R line shorter than a build date threw std::out_of_range and a release which
is not a number std::invalid_argument; nobody catches them, so one such record
in the database made every command abort.
---
 src/archive.cxx | 5 +++--
 src/pkgdbh.cxx  | 4 +++-
 src/pkgrepo.cxx | 2 +-
 src/webrepo.cxx | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 77aaea1..ffb1fbf 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -106,7 +106,8 @@ void archive::getRunTimeDependenciesEpoch()
 {
     std::pair<std::string, time_t> NameEpoch;
     for (auto dependency : m_contentMeta) {
-        if (dependency[0] == 'R') {
+        // name and build date
+        if (dependency[0] == RUNTIME_DEPENDENCY && dependency.size() > 11) {
             NameEpoch.first = dependency.substr(1, dependency.size() - 11);
             NameEpoch.second = strtoul((dependency.substr(dependency.size() - 10)).c_str(), NULL, 0);
             m_rtDependenciesEpochList.insert(NameEpoch);
@@ -248,7 +249,7 @@ int archive::release()
 {
     for (auto s : m_contentMeta) {
         if (s[0] == RELEASE) {
-            return stoi(s.substr(1));
+            return atoi(s.substr(1).c_str());
             break;
         }
     }
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 8cf7cd5..4aaa660 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -455,7 +455,7 @@ pkgdbh::buildSimpleDependenciesDatabase()
 			std::set<std::string> fileContent;
 			parseFile(fileContent,metaFile.c_str());
 		for (auto s : fileContent) {
-			if (s[0] == RUNTIME_DEPENDENCY) {
+			if (s[0] == RUNTIME_DEPENDENCY && s.size() > 11) {
 				std::string dependency = s.substr(1,s.size()-11);
 				packageWithDeps.second.insert(dependency);
 			}
@@ -561,6 +561,8 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case RUNTIME_DEPENDENCY:
+					if (s.size() <= 11) // no name or no build date
+						continue;
 					std::pair<std::string,time_t > NameEpoch;
 					NameEpoch.first=s.substr(1,s.size()-11);
 					NameEpoch.second=strtoul((s.substr(s.size()-10)).c_str(),nullptr,0);
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..c421e4b 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -447,7 +447,7 @@ void pkgrepo::parse()
                     info.version(p.substr(1));
                     continue;
                 case RELEASE:
-                    info.release(stoi(p.substr(1)));
+                    info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
                     info.space(atoi(p.substr(1).c_str()));
diff --git a/src/webrepo.cxx b/src/webrepo.cxx
index 630d675..db70673 100644
--- a/src/webrepo.cxx
+++ b/src/webrepo.cxx
@@ -92,7 +92,7 @@ void webrepo::parse() {
 				    info.version(found);
 				    break;
 			    case RELEASE:
-				    info.release(stoi(found));
+				    info.release(atoi(found.c_str()));
 				    break;
 			    case DESCRIPTION:
 				    info.description(found);
-- 
2.43.0


From cbd449b13cbe3cab764bcd58401e0d1f360298d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 013/108] fix: a dependency with a name of one, two or three
 characters is a dependency

The repository parser dropped it, so it was neither downloaded nor installed.
---
 src/pkgrepo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index c421e4b..8493785 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -492,7 +492,7 @@ void pkgrepo::parse()
                     continue;
                 case RUNTIME_DEPENDENCY:
                     dependency.first = pkgName;
-                    if (p.size() > 14) {
+                    if (p.size() > 11) {
                         dependency.first = p.substr(1, p.size() - 11);
                         dependency.second = strtoul(p.substr((p.size()) - 10).c_str(), nullptr, 0);
                         pkgDependencies.insert(dependency);
-- 
2.43.0


From ab80ec88e9794c315aef40d1a18f8873d3ea92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 014/108] fix: a record interrupted before its list of files
 was written does not block every command

An installation killed between the META and the files of its record left a
directory no command could read past: 'could not open .../files' for all of
pkgadd, pkgrm and pkginfo.  The package is now reported as incomplete and can be
upgraded or removed.
---
 src/pkgdbh.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 4aaa660..dca1858 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -621,6 +621,15 @@ void pkgdbh::buildDatabase(const bool& files)
 		if (files) {
 			const std::string filelist = m_root + PKG_DB_DIR + i + PKG_FILES;
 			int fd = open(filelist.c_str(), O_RDONLY);
+			if (fd == -1 && errno == ENOENT) {
+				// Left by an interrupted installation or removal, it
+				// can be upgraded or removed
+				std::cerr << m_utilName << ": " << i
+					<< _(": incomplete, no list of files") << std::endl;
+				m_listOfPackages[i] = info;
+				m_DB_Empty=false;
+				continue;
+			}
 			if (fd == -1) {
 				m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 				treatErrors(filelist);
-- 
2.43.0


From 457d303dea5928d0a95950b6f8a007a20bdea587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 015/108] fix: a file where the package needs a directory is a
 conflict

The extraction replaces it by the directory, so a file of the administrator or
of another package was silently destroyed without -f.
---
 src/pkgdbh.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index dca1858..a4f00b4 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1126,6 +1126,19 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 	std::cerr << std::endl;
 #endif
 
+	// Find files where the package needs a directory
+	std::set<std::string> directories;
+	for (auto i : info.files) {
+		for (std::string::size_type pos = i.find('/'); pos != std::string::npos;
+				pos = i.find('/', pos + 1)) {
+			const std::string dir = i.substr(0, pos);
+			if (directories.insert(dir).second
+				&& checkFileExist(m_root + dir)
+				&& !checkFileExist(m_root + dir + "/."))
+				files.insert(dir);
+		}
+	}
+
 	// If this is an upgrade, remove files already owned by this package
 	if (m_listOfPackages.find(name) != m_listOfPackages.end()) {
 		for (auto i : m_listOfPackages[name].files)
-- 
2.43.0


From 66d11ca50a508b053b4068066d32c79daeadf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 016/108] fix: a refused installation runs no post-install tool

---
 src/pkgadd.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 98ce4bf..2fb60ac 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -77,8 +77,11 @@ void pkgadd::run()
 
 	assertInstallOrUpgrade(package.first);
 
+	// The tools run at the end for what was installed, not for what is refused
+	std::set<std::pair<std::string,int>> toolsOfInstalled(m_postInstallList);
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
+	m_postInstallList.swap(toolsOfInstalled);
 
 	if (m_runPrePost)
 		preRun();
@@ -127,6 +130,7 @@ void pkgadd::run()
 
 	// Add the info about the files to the DB
 	addPackageFilesRefsToDB(package.first, package.second);
+	m_postInstallList.swap(toolsOfInstalled);
 
 	takePostInstallScript();
 	Lock.reset();
-- 
2.43.0


From 37524b0cd5b4f92fe84ee3a44cdaca8770289b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 017/108] fix: replace the meta data with the mark of a
 dependency at once, and notice when it can not be written

---
 src/pkgdbh.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index a4f00b4..f4cf0c8 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -717,10 +717,19 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	}
 	if (m_dependency) {
 		std::string file = packagenamedir + PKG_META;
+		const std::string file_new = file + ".imcomplete_transaction";
 		fileContent.insert("d1");
-		std::ofstream out(file);
-		for ( auto i: fileContent) out << i << std::endl;
+		std::ofstream out(file_new);
+		for ( auto i: fileContent) out << i << "\n";
 		out.close();
+		if (!out) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_WRITE_FILE;
+			treatErrors(file_new);
+		}
+		if (rename(file_new.c_str(), file.c_str()) == -1) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_RENAME_FILE;
+			treatErrors(file_new + " to " + file);
+		}
 		m_dependency=false;
 	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
-- 
2.43.0


From 97243e92c83a3222b0abed256f2e5fb71183bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 018/108] fix: an installation which can not write the meta
 data has failed

---
 src/pkgdbh.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index f4cf0c8..3012cad 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1378,6 +1378,11 @@ void pkgdbh::installArchivePackage
 			// continue trying to install the rest of the package.
 			const char* msg = archive_error_string(archive);
 			std::cerr << m_utilName << ": could not install " + archive_filename << ": " << msg << std::endl;
+			if (archive_filename == METAFILE) {
+				// Without it there is nothing to record
+				m_actualError = cards::ERROR_ENUM_CANNOT_WRITE_FILE;
+				treatErrors(METAFILE);
+			}
 			continue;
 
 		}
-- 
2.43.0


From a2eb33e5397dddac4d805aafbd3237746d7593c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 019/108] fix: an error reading the database or the rules is
 neither ignored nor met again for ever

---
 src/file_utils.cxx   | 12 ++++++++----
 src/pkgdbh.cxx       | 33 +++++++++++++++++++++++++++------
 src/string_utils.cxx |  4 ++--
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index dc7977c..5fe741d 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -254,13 +254,17 @@ int findDir(std::set<std::string>& filesList, const std::string& path)
   d = opendir(path.c_str());
   if (d)
   {
+    errno = 0;
     while ((dir = readdir(d)) != nullptr)
     {
 			if ( dir->d_name[0] != '.' ) { // ignore any .directories
         	filesList.insert(dir->d_name);
       }
     }
+    const bool incomplete = errno != 0;
     closedir(d);
+    if (incomplete)
+      return -1;
   } else {
 		std::cerr << YELLOW << path << " not exist." << NORMAL << std::endl;
 		return -1;
@@ -356,14 +360,14 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 	std::ifstream in(fileName);
 
 	if (!in)
-		return -1;
+		return errno == ENOENT || errno == ENOTDIR ? -1 : -2;
 
 	std::string line;
 
 	while (getline(in, line))
 		fileContent.insert(line);
 
-	return 0;
+	return in.bad() ? -2 : 0;
 }
 
 int parseFile(std::vector<std::string>& fileContent, const char* fileName)
@@ -371,14 +375,14 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 	std::ifstream in(fileName);
 
 	if (!in)
-		return -1;
+		return errno == ENOENT || errno == ENOTDIR ? -1 : -2;
 
 	std::string line;
 
 	while (getline(in, line))
 		fileContent.push_back(line);
 
-	return 0;
+	return in.bad() ? -2 : 0;
 }
 int parseFile(std::string& Depends, const char* key, const char* fileName)
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 3012cad..d638c17 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -425,7 +425,7 @@ pkgdbh::getSetOfFiles(const std::string& packageName)
 	if (!in)
 		throw RunTimeErrorWithErrno("could not read " + fileslist);
 
-	while (!in.eof()){
+	while (in.good()){
 	// read alls the files for alls the packages founds
 	for (;;) {
 			std::string file;
@@ -435,6 +435,10 @@ pkgdbh::getSetOfFiles(const std::string& packageName)
 			packageFiles.insert(file);
 		}
 	}
+	if (in.bad()) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(fileslist);
+	}
 	return packageFiles;
 }
 /**
@@ -453,7 +457,10 @@ pkgdbh::buildSimpleDependenciesDatabase()
 		packageWithDeps.first=i;
 		const std::string metaFile = m_root + PKG_DB_DIR + i + PKG_META;
 			std::set<std::string> fileContent;
-			parseFile(fileContent,metaFile.c_str());
+		if (parseFile(fileContent,metaFile.c_str()) == -2) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(metaFile);
+		}
 		for (auto s : fileContent) {
 			if (s[0] == RUNTIME_DEPENDENCY && s.size() > 11) {
 				std::string dependency = s.substr(1,s.size()-11);
@@ -488,7 +495,10 @@ void pkgdbh::buildDatabase(const bool& files)
 		std::set<std::string> categories;
 		std::set<std::string> sets;
 		std::set<std::string> alias;
-		parseFile(fileContent,metaFile.c_str());
+		if (parseFile(fileContent,metaFile.c_str()) == -2) {
+			m_actualError = ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(metaFile);
+		}
 		info.release(1);
 		info.dependency(false);
 		m_listOfAlias[i] = i;
@@ -639,7 +649,7 @@ void pkgdbh::buildDatabase(const bool& files)
 			if (!in)
 				throw RunTimeErrorWithErrno("could not read " + filelist);
 
-			while (!in.eof()){
+			while (in.good()){
 			// read alls the files for alls the packages founds
 				for (;;) {
 					std::string file;
@@ -649,6 +659,10 @@ void pkgdbh::buildDatabase(const bool& files)
 					info.files.insert(info.files.end(), file);
 				}
 			}
+			if (in.bad()) {
+				m_actualError = ERROR_ENUM_CANNOT_READ_FILE;
+				treatErrors(filelist);
+			}
 		}
 
 		m_listOfPackages[i] = info;
@@ -692,7 +706,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 
 	metaFilesList.insert(METAFILE);
 	std::set<std::string> fileContent;
-	if ( parseFile(fileContent,METAFILE) == -1 ) {
+	if ( parseFile(fileContent,METAFILE) != 0 ) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_FIND_FILE;
 		treatErrors(METAFILE);
 	}
@@ -1432,7 +1446,7 @@ const void pkgdbh::readRulesFile()
 	std::ifstream in(filename);
 
 	if (in) {
-		while (!in.eof()) {
+		while (in.good()) {
 			std::string line;
 			getline(in, line);
 			linecount++;
@@ -1504,7 +1518,14 @@ const void pkgdbh::readRulesFile()
 				}
 			}
 		}
+		if (in.bad()) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(filename);
+		}
 		in.close();
+	} else if (errno != ENOENT) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+		treatErrors(filename);
 	}
 #ifdef DEBUG
 	std::cerr << "Configuration:" << std::endl;
diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 10365cc..26bf9c9 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -51,7 +51,7 @@ std::set<std::string> getKeysList(std::string file, std::string delimiter)
   std::ifstream in(file.c_str());
   std::string line, property;
   if (in) {
-    while (!in.eof()) {
+    while (in.good()) {
       getline(in, line);
       if ((line[0] != '#' ) && ( line.find(delimiter) > 0) && ( line.size() > 0)) {
         property = line;
@@ -70,7 +70,7 @@ std::string getValueOfKey(std::string file, char delimiter,std::string parameter
   std::string line;
   keyValue pv;
   if (in) {
-    while (!in.eof()) {
+    while (in.good()) {
       getline(in, line);
 			if ((line[0] != '#' ) && ( line.find(delimiter) > 0) && ( line.size() > 0)) {
         pv = splitKeyValue(stripWhiteSpace(line),delimiter);
-- 
2.43.0


From ff84197bd30b983bf75d7dc1973c884846d89fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 020/108] fix: read the dynamic section of ELF files within its
 bounds

The loop ran over size bytes as if they were entries, string offsets were
not bounded, the first string table was taken for the dynamic one, and the
32 bits structures had 8 bytes fields. A FIFO blocked, a short header was
read after its file had been closed.
---
 src/elf.h                          | 28 +++++-----
 src/file_utils.cxx                 |  7 ++-
 src/runtime_dependencies_utils.cxx | 86 ++++++++++++------------------
 3 files changed, 52 insertions(+), 69 deletions(-)

diff --git a/src/elf.h b/src/elf.h
index 333375e..1e27aa1 100644
--- a/src/elf.h
+++ b/src/elf.h
@@ -43,10 +43,10 @@ typedef struct elf_internal_ehdr_end {
 
 /* dynamic section structure */
 typedef struct elf_internal_dyn_32 {
-	unsigned long d_tag;
+	unsigned int d_tag;
 	union { 
-		unsigned long d_val;
-		unsigned long d_ptr;
+		unsigned int d_val;
+		unsigned int d_ptr;
 	 } d_un;
 } Elf_Dyn_32;
 
@@ -63,14 +63,14 @@ typedef struct elf_internal_dyn_64 {
 typedef struct elf_internal_shdr_32 {
 	unsigned int  sh_name;
 	unsigned int  sh_type;
-	unsigned long sh_flags;
-	unsigned long sh_addr;
-	unsigned long sh_offset;
-	unsigned long sh_size;
+	unsigned int sh_flags;
+	unsigned int sh_addr;
+	unsigned int sh_offset;
+	unsigned int sh_size;
 	unsigned int  sh_link;
 	unsigned int  sh_info;
-	unsigned long sh_addralign;
-	unsigned long sh_entsize;
+	unsigned int sh_addralign;
+	unsigned int sh_entsize;
 } Elf_Shdr_32;
 
 typedef struct elf_internal_shdr_64 {
@@ -90,11 +90,11 @@ typedef struct elf_internal_shdr_64 {
 
 typedef struct elf_internal_phdr_32 {
 	unsigned int p_type;
-	unsigned long p_offset;
-	unsigned long p_vaddr;
-	unsigned long p_paddr;
-	unsigned long p_filesz;
-	unsigned long p_memsz;
+	unsigned int p_offset;
+	unsigned int p_vaddr;
+	unsigned int p_paddr;
+	unsigned int p_filesz;
+	unsigned int p_memsz;
 	unsigned int p_flags;
 	unsigned int p_align;
 } Elf_Phdr_32;
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 5fe741d..fc61fba 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -32,7 +32,9 @@ void * getDatas ( void * var, FILE * file, long offset, size_t size, size_t nmem
   }
   if (fread (mvar, size, nmemb, file) != nmemb)
   {
-    printf("Unable to read in 0x%lx bytes", (unsigned long)(size * nmemb));
+    std::cerr << "Unable to read in " << size * nmemb << " bytes" << std::endl;
+    if (var == nullptr)
+      free (mvar);
     return nullptr;
   }
   return mvar;
@@ -103,7 +105,8 @@ bool checkRegularFile(const std::string& filename)
 	struct stat buf;
 	if (!checkFileExist(filename))
 		return false;
-	stat(filename.c_str(), &buf);
+	if (stat(filename.c_str(), &buf) != 0)
+		return false;
 	return (S_ISREG(buf.st_mode));
 
 }
diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index 9f769c6..0b91cff 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -61,7 +61,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 	char * dynamic_strings = NULL;
 
-	if ( ! checkFileExist(file_name) || checkFileEmpty(file_name) )
+	if ( ! checkRegularFile(file_name) || checkFileEmpty(file_name) )
 		return error ("Cannot find file");
 
 	file = fopen (file_name, "rb" );
@@ -99,6 +99,9 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 /* 64 bit elf file */
     get_64bit_elf_header_part(file);
 
+	if (file == NULL)
+		return 0; // error() has been called
+
 /* Get the end part of the ELF Header */
 	buffer_end = (Elf_Ehdr_End *)malloc( sizeof(elf_header_end));
 	result = fread (buffer_end,1,sizeof(elf_header_end),file);
@@ -129,6 +132,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if ( elf_header_end.e_shentsize != sizeof(Elf_Shdr_32)
+			|| elf_header_end.e_phentsize != sizeof(Elf_Phdr_32) )
+			return error ("Unexpected size of the headers");
+
 		section_headers_32bits = (Elf_Shdr_32 *)getDatas (NULL, file,
 				elf_header_32bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -139,28 +146,17 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
 		{
-/* Only the dynamic section we are concern */
-			if ( section_headers_32bits[i].sh_type == SHT_STRTAB )
+/* Only the dynamic section we are concern, it knows where its strings are */
+			if ( section_headers_32bits[i].sh_type == SHT_DYNAMIC
+				&& section_headers_32bits[i].sh_link < elf_header_end.e_shnum )
 			{
-					offset = section_headers_32bits[i].sh_offset;
-#ifdef DEBUG
-		printf("section_headers_32bits[%d].sh_offset: %u 0x%x\n",
-	i,section_headers_32bits[i].sh_offset,section_headers_32bits[i].sh_offset);
-#endif
-				
-					if ( i ==  elf_header_end.e_shnum - 1 )
-					{
-						dependencies_utils_end();
-#ifdef DEBUG
-	printf("No dynamics found\n");
-		printf("offset : %u 0x%x\n",
-	offset,offset);
-#endif
-						return 0;
-					}
-					break;
+				offset = section_headers_32bits[section_headers_32bits[i].sh_link].sh_offset;
+				break;
 			}
 		}
+		if ( offset <= 0 )
+			return error ("No dynamics found");
+
 /* Program header */
 		program_headers_32bits  = (Elf_Phdr_32 *) getDatas(NULL, file,
 			elf_header_32bits.e_phoff,
@@ -215,7 +211,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_32bits;
-				edyn < dynamics_section_32bits + dynamic_size_32bits;
+				edyn < dynamics_section_32bits + dynamic_size_32bits / sizeof(Elf_Dyn_32);
 				edyn ++)
 		{
 			if (edyn->d_tag == DT_NULL)
@@ -223,10 +219,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <  dynamic_strings_length) )
+				if ( edyn->d_un.d_val < (unsigned long)dynamic_strings_length )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if ( name != NULL  && name[strlen(name)-1] != '.')
+					if ( name[0] != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
@@ -251,6 +247,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if ( elf_header_end.e_shentsize != sizeof(Elf_Shdr_64)
+			|| elf_header_end.e_phentsize != sizeof(Elf_Phdr_64) )
+			return error ("Unexpected size of the headers");
+
 		section_headers_64bits = (Elf_Shdr_64  *)getDatas (NULL, file,
 				elf_header_64bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -261,37 +261,17 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
 		{
-/* Only the dynamic section we are concern */
-			if ( section_headers_64bits[i].sh_type == SHT_STRTAB )
+/* Only the dynamic section we are concern, it knows where its strings are */
+			if ( section_headers_64bits[i].sh_type == SHT_DYNAMIC
+				&& section_headers_64bits[i].sh_link < elf_header_end.e_shnum )
 			{
-				offset = section_headers_64bits[i].sh_offset;
-#ifdef DEBUG
-		printf("section_headers_64bits[%d].sh_offset: %u 0x%x\n",
-	i,section_headers_64bits[i].sh_offset,section_headers_64bits[i].sh_offset);
-#endif
-				if ( i ==  elf_header_end.e_shnum - 1 )
-				{
-					dependencies_utils_end();
-#ifdef DEBUG
-	printf("No dynamics found\n");
-	printf("offset : %u 0x%x\n",
-	offset,offset);
-#endif
-					return 0;
-				}
+				offset = section_headers_64bits[section_headers_64bits[i].sh_link].sh_offset;
 				break;
 			}
 		}
-    if ( offset == elf_header_end.e_shnum - 1)
-    {
-      dependencies_utils_end();
-#ifdef DEBUG
-	printf("No dynamics found\n");
-	printf("offset : %u 0x%x\n",
-	offset,offset);
-#endif
-      return 0;
-    }
+		if ( offset <= 0 )
+			return error ("No dynamics found");
+
 /* Program header */
 		program_headers_64bits = (Elf_Phdr_64 *) getDatas(NULL, file,
 			elf_header_64bits.e_phoff,
@@ -344,7 +324,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_64bits;
-			edyn < dynamics_section_64bits + dynamic_size_64bits;
+			edyn < dynamics_section_64bits + dynamic_size_64bits / sizeof(Elf_Dyn_64);
 			edyn ++)
 		{
 #ifdef DEBUG
@@ -355,10 +335,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <	dynamic_strings_length) )
+				if ( edyn->d_un.d_val < (unsigned long)dynamic_strings_length )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if (name[strlen(name)-1] != '.')
+					if ( name[0] != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
-- 
2.43.0


From fa7765f82f6cb680d136df5069319c7741240bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 021/108] fix: pkginfo -L, -R, -b and -d of an alias, -L and -R
 below the root

---
 src/pkginfo.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 28f02ff..6f35494 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -316,8 +316,8 @@ void pkginfo::run()
             std::cout << "Librairies"<< std::endl;
 
             if (checkPackageNameExist(m_arg)) {
-                for (auto i : m_listOfPackages[m_arg].files) {
-                    std::string filename('/' + i);
+                for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
+                    std::string filename(m_root + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
                 if ((librariesList.size() > 0) && (Result > -1)) {
@@ -359,7 +359,7 @@ void pkginfo::run()
             //  get the buildtime of the package: return 0 if not found
             buildDatabase(false);
             if (checkPackageNameExist(m_arg)) {
-                std::cout << m_listOfPackages[m_arg].build() << std::endl;
+                std::cout << m_listOfPackages[m_listOfAlias[m_arg]].build() << std::endl;
             } else {
                 std::cout << "0" << std::endl;
             }
@@ -408,12 +408,12 @@ void pkginfo::run()
                           << _("Installed Size : ") << sizeHumanRead(m_listOfPackages[arg].space())
                           << _("bytes") << std::endl
                           << _("Arch           : ") << m_listOfPackages[arg].arch() << std::endl;
-                if (m_listOfPackages[m_arg].dependency() == false)
+                if (m_listOfPackages[arg].dependency() == false)
                     std::cout << _("Man. installed : Yes");
                 else
                     std::cout << _("Man. installed : No");
                 std::cout << std::endl;
-                if (m_listOfPackages[m_arg].dependencies().size() > 0) {
+                if (m_listOfPackages[arg].dependencies().size() > 0) {
                     std::cout << _("Dependencies   : ");
                     for (auto i : m_listOfPackages[arg].dependencies())
                         std::cout << i.first << " ";
-- 
2.43.0


From e9246ad256e98eb82277f043f18c021ecdc921f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 022/108] fix: match a runtime library with the name of a file,
 not with part of it

---
 src/pkginfo.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 6f35494..0fa49e1 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -5,6 +5,16 @@
 
 #include "pkginfo.h"
 
+// libfoo.so.1 is usr/lib/libfoo.so.1 or usr/lib/libfoo.so.1.2, not usr/lib/libfoo.so.11
+static bool isFileNamed(const std::string& path, const std::string& library)
+{
+    std::string::size_type pos = path.rfind('/');
+    if ((pos == std::string::npos) || (path.compare(pos + 1, library.size(), library) != 0))
+        return false;
+    pos += 1 + library.size();
+    return (pos == path.size()) || (path[pos] == '.');
+}
+
 pkginfo::pkginfo(const std::string& commandName)
     : pkgdbh(commandName)
     , m_runtimedependencies_mode(0)
@@ -286,7 +296,7 @@ void pkginfo::run()
                     for (auto j : m_listOfPackages) {
                         bool found = false;
                         for (auto k : j.second.files) {
-                            if (k.find('/' + i) != std::string::npos) {
+                            if (isFileNamed(k, i)) {
                                 std::string dependency = j.first + ultos(j.second.build());
                                 runtimeList.insert(dependency);
                                 break;
@@ -327,7 +337,7 @@ void pkginfo::run()
                             for (auto j : m_listOfPackages) {
                                 bool found = false;
                                 for (auto k : j.second.files) {
-                                    if (k.find('/' + i) != std::string::npos) {
+                                    if (isFileNamed(k, i)) {
                                         runtimeList.insert(j.first);
                                         break;
                                         found = true;
-- 
2.43.0


From 065bd55e1a9367d0870b3cb94fecaa2e37545103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 023/108] fix: sizes of packages of 4 GiB and more

---
 src/db.cxx      | 4 ++--
 src/db.h        | 6 +++---
 src/pkgdbh.cxx  | 2 +-
 src/pkgrepo.cxx | 4 ++--
 src/pkgrepo.h   | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/db.cxx b/src/db.cxx
index 5e27ea9..adf7756 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -14,11 +14,11 @@ db::~db()
 {
 	//nothing todo ATM
 }
-void db::space(unsigned int space)
+void db::space(unsigned long space)
 {
 	m_space = space;
 }
-unsigned int db::space()
+unsigned long db::space()
 {
 	return m_space;
 }
diff --git a/src/db.h b/src/db.h
index 57e7740..50734bb 100644
--- a/src/db.h
+++ b/src/db.h
@@ -8,7 +8,7 @@ namespace cards {
 
 class db : public pkg
 {
-	unsigned int			m_space;      // disk occupation onces installed
+	unsigned long			m_space;      // disk occupation onces installed
 	time_t					m_install;    // date of last installation
 	bool					m_dependency; // If TRUE it's automatically installed, it's a dep
 
@@ -20,14 +20,14 @@ public:
 	~db();
 	
 	time_t 					install();
-	unsigned int 			space();
+	unsigned long 			space();
 	bool 					dependency();
 	std::set<std::string>	files;
 	std::set<std::pair<std::string,time_t>>&
 							dependencies();
 
 	void					install(time_t time);
-	void					space(unsigned int space); 
+	void					space(unsigned long space); 
 	void					dependency(bool dependency);
 	void					dependencies(const std::set<std::pair<std::string,time_t>> dependencies);
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index d638c17..0516f4b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -558,7 +558,7 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case SPACE:
-					info.space(atoi(s.substr(1).c_str()));
+					info.space(strtoul(s.substr(1).c_str(),nullptr,10));
 					continue;
 
 				case ALIAS:
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 8493785..cfb7ddf 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -450,7 +450,7 @@ void pkgrepo::parse()
                     info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
-                    info.space(atoi(p.substr(1).c_str()));
+                    info.space(strtoul(p.substr(1).c_str(),nullptr,10));
                     continue;
                 case ARCHITECTURE:
                     info.arch(p.substr(1));
@@ -721,7 +721,7 @@ std::string& pkgrepo::dirName(const std::string& name)
 
     return m_packageDirName;
 }
-unsigned int pkgrepo::getSpace(const std::string& name)
+unsigned long pkgrepo::getSpace(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].space();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 82be574..41c3f8c 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -23,8 +23,8 @@ struct m_package {
 	time_t available_build;
 	std::string installed_version;
 	std::string available_version;
-	unsigned int installed_space;
-	unsigned int available_space;
+	unsigned long installed_space;
+	unsigned long available_space;
 	unsigned int available_size;
 	StatusEnumUpgrade status;
 
@@ -160,7 +160,7 @@ public:
     std::string&             fileSignature(const std::string& name);
     std::string&             fileHash(const std::string& name);
     std::string&             getBinaryPackageInfo(const std::string& name);
-    unsigned int             getSpace(const std::string& name);
+    unsigned long            getSpace(const std::string& name);
     unsigned int             getSize(const std::string& name);
     std::string&             version(const std::string& name);
     unsigned short int       release(const std::string& name);
-- 
2.43.0


From 8167216c10c5a5612e2e5f440b9175abda305deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 024/108] fix: the name of an installed package is no alias of
 another one

---
 src/pkgdbh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 0516f4b..d760967 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -563,7 +563,9 @@ void pkgdbh::buildDatabase(const bool& files)
 
 				case ALIAS:
 					alias.insert(s.substr(1));
-					m_listOfAlias[s.substr(1)] = i;
+					// The name of an installed package is no alias of another one
+					if (m_listOfPackagesNames.find(s.substr(1)) == m_listOfPackagesNames.end())
+						m_listOfAlias[s.substr(1)] = i;
 					continue;
 
 				case CATEGORIES:
-- 
2.43.0


From ce4271d7a0602318ce6b89c8b1a7086ea11e7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 025/108] fix: members, hard links and names of a package do
 not lead out of the root

---
 src/pkgdbh.cxx | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index d760967..0462362 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1178,6 +1178,11 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 
 	return files;
 }
+// A name with .. leads out of the root
+static bool isOutside(const std::string& name)
+{
+	return ("/" + name + "/").find("/../") != std::string::npos;
+}
 void pkgdbh::assertArchiveComplete(const std::string& filename)
 {
 	struct archive* archive;
@@ -1201,7 +1206,10 @@ void pkgdbh::assertArchiveComplete(const std::string& filename)
 		result = archive_read_next_header(archive, &entry);
 		if (result == ARCHIVE_EOF || result < ARCHIVE_WARN)
 			break;
-		if (archive_entry_pathname(entry) == nullptr) {
+		const char* pathname = archive_entry_pathname(entry);
+		const char* hardlink = archive_entry_hardlink(entry);
+		if (pathname == nullptr || isOutside(pathname)
+			|| (hardlink != nullptr && isOutside(hardlink))) {
 			result = ARCHIVE_FATAL;
 			break;
 		}
@@ -1265,8 +1273,16 @@ pkgdbh::openArchivePackage(const std::string& filename)
 	result.second.collection(packageArchive.collection());
 	result.second.license(packageArchive.license());
 
+	if (result.first == "." || isOutside(result.first) || result.first.find('/') != std::string::npos) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
+		treatErrors(basename);
+	}
 	std::set<std::string> fileList =  packageArchive.setofFiles();
 	for (auto i :fileList) {
+		if (isOutside(i)) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(basename + ": " + i);
+		}
 		result.second.files.insert(i);
 	}
 	result.second.dependencies(packageArchive.listofDependenciesBuildDate());
@@ -1386,6 +1402,12 @@ void pkgdbh::installArchivePackage
 
 		archive_entry_set_pathname(entry, const_cast<char*>
 		                           (real_filename.c_str()));
+		// The target of a hard link is below the root as well
+		if (archive_entry_hardlink(entry) != nullptr) {
+			std::string target = trimFileName(absm_root + std::string("/")
+				+ archive_entry_hardlink(entry));
+			archive_entry_set_hardlink(entry, target.c_str());
+		}
 
 		// Extract file
 		unsigned int flags = ARCHIVE_EXTRACT_OWNER | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_UNLINK;
-- 
2.43.0


From 9fabb7c8b97c72d5eb7a77502914e68d6c3fc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 026/108] fix: an alias of an installed package is no package
 to upgrade

---
 src/pkgadd.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 2fb60ac..60547ee 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -148,7 +148,7 @@ void pkgadd::assertInstallOrUpgrade(const std::string& name)
 		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
 		treatErrors(name);
 	}
-	else if (!installed && m_upgrade)
+	else if (m_upgrade && m_listOfPackages.find(name) == m_listOfPackages.end())
 	{
 		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
 		treatErrors(name);
-- 
2.43.0


From d8da5aeac6420ab39f07ffe3d7c332fea8ac3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 027/108] fix: end the file name when it has the maximal length

---
 src/file_utils.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index fc61fba..e171c46 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -329,7 +329,8 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 			continue;
 		if (!strcmp(dent->d_name, ".") || !strcmp(dent->d_name, ".."))
 			continue;
-		strncpy(fn + len, dent->d_name, FILENAME_MAX - len);
+		strncpy(fn + len, dent->d_name, FILENAME_MAX - len - 1);
+		fn[FILENAME_MAX - 1] = '\0';
 		if (lstat(fn, &st) == -1)
 		{
 			warn("Can't stat %s", fn);
-- 
2.43.0


From df7aefd55f835d9144ef69e596f04d68d4439880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 028/108] fix: read the database under the lock before an
 installation

While another pkgadd replaces the record of a package there is none for
a moment. Whoever read the database then, without the lock, was told that
the package was not installed and refused to upgrade it.
---
 src/pkgadd.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 60547ee..70bff66 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -51,7 +51,8 @@ void pkgadd::parseArguments(int argc, char** argv)
 		m_actualError = cards::ERROR_ENUM_ONLY_ROOT_CAN_INSTALL_UPGRADE_REMOVE;
 		treatErrors("");
 	}
-	// Retrieving info about all the packages
+	// Retrieving info about all the packages, while nobody changes it
+	cards::lock Lock(m_root, false);
 	buildDatabase(true);
 }
 void pkgadd::preRun()
-- 
2.43.0


From 44d15254c5b5949b6c2a0a66191331f421ee0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 029/108] fix: pkgrm of a mere alias says that the package is
 not installed

The name of an alias passed the check and the removal then failed with an
unreadable record.
---
 src/pkgrm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index bab9623..dc8ec18 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -70,7 +70,7 @@ void pkgrm::run()
 
 	readRulesFile();
 
-	if (!checkPackageNameExist(m_packageName)) {
+	if (m_listOfPackages.find(m_packageName) == m_listOfPackages.end()) {
 			m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_INSTALL;
 			treatErrors(m_packageName);
 	}
-- 
2.43.0


From 919785c17a2dbaf2e38e3277ea22f615bbefe540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 030/108] fix: a tab separates a key of cards.conf from its
 value, whatever follows

---
 src/conf.cxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index aa19d3e..155faa2 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -26,11 +26,7 @@ void conf::parseConfig()
 		}
 
 		// whitespace separates
-		pos = s.find(' ');
-		if (pos == std::string::npos) {
-			// try with a tab
-			pos = s.find('\t');
-		}
+		pos = s.find_first_of(" \t");
 		if (pos != std::string::npos) {
 			std::string key = s.substr(0, pos);
 			std::string val = stripWhiteSpace(s.substr(pos));
-- 
2.43.0


From 4297014e026bb58b1f33fbe7256bc014dba71008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 031/108] fix: what a collection lists about one package is not
 taken over by the next one

---
 src/cache.cxx   |  4 +++-
 src/pkgrepo.cxx | 44 +++++++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/cache.cxx b/src/cache.cxx
index 081c2ee..78bf51c 100644
--- a/src/cache.cxx
+++ b/src/cache.cxx
@@ -5,8 +5,10 @@
 namespace cards {
 
 cache::cache()
+	: m_status(STATUS_ENUM_UNKNOWN)
+	, m_size(0)
+	, m_installed(false)
 {
-	m_status = STATUS_ENUM_UNKNOWN;
 }
 cache::~cache()
 {
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index cfb7ddf..312f0c7 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -391,15 +391,14 @@ void pkgrepo::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cache info;
-
     for (auto i : m_config.dirUrl()) {
-        info.dirName(i.depot + "/" + i.collection);
-        std::string repoFile = info.dirName()
+        cache common;
+        common.dirName(i.depot + "/" + i.collection);
+        std::string repoFile = common.dirName()
             + PKG_REPO_META;
 
-        info.collection(i.collection);
-        info.origin(i.url
+        common.collection(i.collection);
+        common.origin(i.url
             + "/"
             + getMachineType()
             + "/"
@@ -419,6 +418,7 @@ void pkgrepo::parse()
         bool pkgFound = false;
         std::string::size_type pos;
         std::string pkgName;
+        cache info = common;
         std::set<std::string> pkgSet;
         std::set<std::string> pkgAlias;
         std::set<std::string> pkgCategories;
@@ -430,10 +430,10 @@ void pkgrepo::parse()
             if (p[0] == '@') {
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
+                    // Nothing is taken over from the previous package
+                    info = common;
                     info.fileName(p.substr(1));
-                    info.group("");
-                    info.nls("");
-                    info.baseName("");
+                    pkgName.clear();
                     pkgFound = true;
                 }
                 continue;
@@ -522,9 +522,6 @@ void pkgrepo::parse()
                 }
             }
             if (p.size() == 0) {
-                if ( (info.collection().size() == 0) &&
-                        (info.baseName().size() > 0) )
-                    info.collection(m_listOfPackages[info.baseName()].collection());
                 pkgFound = false;
                 info.libs(pkgLibs);
                 info.alias(pkgAlias);
@@ -538,11 +535,32 @@ void pkgrepo::parse()
                 pkgDependencies.clear();
                 pkgConflicts.clear();
                 pkgLibs.clear();
-                m_listOfPackages[pkgName] = info;
+                if (!pkgName.empty())
+                    m_listOfPackages[pkgName] = info;
+                pkgName.clear();
                 continue;
             }
         }
     }
+    // What only the main package of a group tells is valid for the whole group
+    for (auto& i : m_listOfPackages) {
+        cache& info = i.second;
+        auto base = m_listOfPackages.find(info.baseName());
+        if (base == m_listOfPackages.end())
+            continue;
+        if (info.description().empty())
+            info.description(base->second.description());
+        if (info.url().empty())
+            info.url(base->second.url());
+        if (info.contributors().empty())
+            info.contributors(base->second.contributors());
+        if (info.maintainer().empty())
+            info.maintainer(base->second.maintainer());
+        if (info.packager().empty())
+            info.packager(base->second.packager());
+        if (info.license().empty())
+            info.license(base->second.license());
+    }
 }
 void pkgrepo::parseFiles()
 {
-- 
2.43.0


From a10ab7abcf0ea7096cee09dbefd0bd008f06ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 032/108] fix: the directory listed first in cards.conf has
 precedence

---
 src/pkgrepo.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 312f0c7..099a5e1 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -419,6 +419,7 @@ void pkgrepo::parse()
         std::string::size_type pos;
         std::string pkgName;
         cache info = common;
+        repo_t listOfPackages;
         std::set<std::string> pkgSet;
         std::set<std::string> pkgAlias;
         std::set<std::string> pkgCategories;
@@ -536,11 +537,13 @@ void pkgrepo::parse()
                 pkgConflicts.clear();
                 pkgLibs.clear();
                 if (!pkgName.empty())
-                    m_listOfPackages[pkgName] = info;
+                    listOfPackages[pkgName] = info;
                 pkgName.clear();
                 continue;
             }
         }
+        // The directories listed first have precedence
+        m_listOfPackages.insert(listOfPackages.begin(), listOfPackages.end());
     }
     // What only the main package of a group tells is valid for the whole group
     for (auto& i : m_listOfPackages) {
-- 
2.43.0


From 584393b89ef4067f7a7925d247d2e6d665252dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 033/108] fix: download and verify the packages of every
 collection which has an url

---
 src/install.cxx | 10 +---------
 src/pkgrepo.cxx | 17 +++++++++--------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/install.cxx b/src/install.cxx
index 30c5b79..548505c 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -117,7 +117,6 @@ void install::parseArguments()
 }
 void install::getLocalePackagesList()
 {
-	std::string packageFileName;
 	cards::conf config(m_configFileName);
 
 	if (config.groups().empty())
@@ -129,15 +128,8 @@ void install::getLocalePackagesList()
 			std::string name = j.first
 				+ "."
 				+ i;
-			if (m_pkgrepo.checkBinaryExist(name)) {
-				std::string packageName  = m_pkgrepo.dirName(name)
-					+ "/"
-					+ m_pkgrepo.fileName(name);
-				packageFileName = m_pkgrepo.fileName(name);
-				if ( ! checkFileExist(packageName) )
-					m_pkgrepo.downloadPackageFileName(name);
+			if (m_pkgrepo.checkBinaryExist(name))
 				tmpList.insert(name);
-			}
 		}
 	}
 	if (tmpList.size() > 0 ) {
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 099a5e1..8226fc5 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -170,7 +170,7 @@ void pkgrepo::generateDependencies()
             // Let's see if we need to download it
             // if the binary archive is not yet downloaded
             // Make no sense to download if no url exist
-            if (m_config.url().size() > 0) {
+            if (!m_listOfPackages[packageName].origin().empty()) {
                 if (!checkFileExist(packageFileName))
                     downloadPackageFileName(packageName);
                 // m_packageFileNameHash contains
@@ -398,13 +398,14 @@ void pkgrepo::parse()
             + PKG_REPO_META;
 
         common.collection(i.collection);
-        common.origin(i.url
-            + "/"
-            + getMachineType()
-            + "/"
-            + m_config.version()
-            + "/"
-            + i.collection);
+        if (!i.url.empty())
+            common.origin(i.url
+                + "/"
+                + getMachineType()
+                + "/"
+                + m_config.version()
+                + "/"
+                + i.collection);
         std::vector<std::string> repoFileContent;
 
         if (parseFile(repoFileContent, repoFile.c_str()) != 0) {
-- 
2.43.0


From 6fdab1cd39511eb1f0e909548f034dbd110992a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 034/108] fix: cyclic dependencies do not make the dependency
 search endless

---
 src/pkgrepo.cxx | 152 ++++++++++++++++--------------------------------
 src/pkgrepo.h   |  13 +++++
 2 files changed, 64 insertions(+), 101 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 8226fc5..b7e86d9 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -127,114 +127,64 @@ void pkgrepo::generateKeys()
 }
 void pkgrepo::generateDependencies()
 {
-    std::string packageNameHash, packageName, packageFileName;
-    std::pair<std::string, time_t> PackageTime;
-    std::vector<std::pair<std::string, time_t>> dependenciesWeMustAdd, depencenciestoSort;
-    std::vector<std::pair<std::string, time_t>>::iterator vit;
-    std::set<std::pair<std::string, time_t>>::iterator sit;
-
-    PackageTime.first = m_packageName;
-    PackageTime.second = 0;
-
-    // Insert the final package
-    dependenciesWeMustAdd.push_back(PackageTime);
-
-    // Main while loop
-    while (!dependenciesWeMustAdd.empty()) {
-        vit = dependenciesWeMustAdd.begin();
-        packageName = vit->first;
-        PackageTime = *vit;
-
-        // Erase the current treated packageName
-        dependenciesWeMustAdd.erase(vit);
-
-        std::set<std::pair<std::string, time_t>> directDependencies;
-        if (m_listOfRepoPackages.find(packageName) != m_listOfRepoPackages.end()) {
-            directDependencies = m_listOfPackages[packageName].dependencies();
-        } else {
-            // The packageName is not found in the listOfPackages
-            if (checkBinaryExist(packageName)) {
-
-                // The packageName binary is found.
-                // Directs dependencies are not yet availables
-                // We need to get PackageFileName of the packageName
-                // And check it's signature
-                packageFileName = dirName(packageName) + "/" + fileName(packageName);
-                packageNameHash = fileHash(packageName);
-            } else {
-                m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_EXIST;
-                treatErrors(packageName);
-            }
+    std::set<std::string> treated;
 
-            // archive PackageName exist:
-            // Let's see if we need to download it
-            // if the binary archive is not yet downloaded
-            // Make no sense to download if no url exist
-            if (!m_listOfPackages[packageName].origin().empty()) {
-                if (!checkFileExist(packageFileName))
-                    downloadPackageFileName(packageName);
-                // m_packageFileNameHash contains
-                // the hashsum of packageFileName
-                generateHash(packageFileName);
-
-                // we compare m_packageFileNameHash
-                // with the one stored in the database
-                if (!checkHash(packageName)) {
-                    // Last try to get it.
-                    downloadPackageFileName(packageName);
-                }
-                if (!checkSign(packageName)) {
-                    m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
-                    treatErrors(packageName);
-                }
-            }
-            directDependencies = getPackageDependencies(packageFileName);
-        }
+    for (auto i : m_dependenciesList)
+        treated.insert(i.first);
 
-        // If the package is not yet installed or not uptodate
-        if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)) {
-            // checkPackageNameBuildDateSame is no then add it
-            depencenciestoSort.push_back(PackageTime);
-        }
-
-        // else checkPackageNameBuildDateSame is yes
+    addDependencies(std::make_pair(m_packageName, (time_t)0), treated);
+}
+void pkgrepo::addDependencies(const std::pair<std::string, time_t>& packageTime,
+    std::set<std::string>& treated)
+{
+    // Each package is treated once, whatever the number of packages needing it
+    if (!treated.insert(packageTime.first).second)
+        return;
 
-        for (auto sit : directDependencies) {
-            if (sit.first == PackageTime.first)
-                continue;
-            for (vit = dependenciesWeMustAdd.begin(); vit != dependenciesWeMustAdd.end(); ++vit) {
-                if (sit == *vit) {
-                    dependenciesWeMustAdd.erase(vit);
-                    break;
-                }
-            }
-        }
-        for (sit = directDependencies.begin(); sit != directDependencies.end(); sit++) {
-            if (PackageTime.first != sit->first) {
-                if (!m_dbh.checkPackageNameBuildDateSame(*sit))
-                    dependenciesWeMustAdd.push_back(*sit);
-            }
-        }
+    // The dependencies (lower level) come first
+    for (auto i : directDependencies(packageTime.first)) {
+        if (!m_dbh.checkPackageNameBuildDateSame(i))
+            addDependencies(i, treated);
     }
-
-    // Let's revert the order of dependencies
-    // We need the last founds (lower level) first
-    bool found = false;
-    for (std::vector<std::pair<std::string, time_t>>::reverse_iterator vrit = depencenciestoSort.rbegin();
-         vrit != depencenciestoSort.rend();
-         ++vrit) {
-        found = false;
-        for (auto i : m_dependenciesList) {
-            if (i.first == vrit->first) {
-                found = true;
-                break;
-            }
+    m_dependenciesList.push_back(packageTime);
+}
+std::set<std::pair<std::string, time_t>>
+pkgrepo::directDependencies(const std::string& packageName)
+{
+    if (!checkBinaryExist(packageName)) {
+        m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_EXIST;
+        treatErrors(packageName);
+    }
+
+    // The packageName binary is found.
+    // Directs dependencies are not yet availables
+    // We need to get PackageFileName of the packageName
+    // And check it's signature
+    std::string packageFileName = dirName(packageName) + "/" + fileName(packageName);
+
+    // archive PackageName exist:
+    // Let's see if we need to download it
+    // if the binary archive is not yet downloaded
+    // Make no sense to download if no url exist
+    if (!m_listOfPackages[packageName].origin().empty()) {
+        if (!checkFileExist(packageFileName))
+            downloadPackageFileName(packageName);
+        // m_packageFileNameHash contains
+        // the hashsum of packageFileName
+        generateHash(packageFileName);
+
+        // we compare m_packageFileNameHash
+        // with the one stored in the database
+        if (!checkHash(packageName)) {
+            // Last try to get it.
+            downloadPackageFileName(packageName);
         }
-        if (!found) {
-            m_dependenciesList.push_back(*vrit);
+        if (!checkSign(packageName)) {
+            m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
+            treatErrors(packageName);
         }
-        // else no deps founds
     }
+    return getPackageDependencies(packageFileName);
 }
 void pkgrepo::downloadPackageFileName(const std::string& packageName)
 {
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 41c3f8c..fd74d6c 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -69,6 +69,19 @@ class pkgrepo {
 	 */
     void                     parse(const std::string& packageNameFiles);
     void                     errors();
+	/**
+	 * Add the dependencies of a package, then the package itself,
+	 * to the list of dependencies
+	 *
+	 */
+    void                     addDependencies(const std::pair<std::string,time_t>& packageTime,
+                                std::set<std::string>& treated);
+	/**
+	 * Get the archive of the package, check it and return what the package needs
+	 *
+	 */
+    std::set<std::pair<std::string,time_t>>
+                             directDependencies(const std::string& packageName);
 
 public:
     pkgrepo(const std::string& fileName);
-- 
2.43.0


From 76f6a00101201abdb4cfe3c272939c4fa7a73b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 035/108] fix: a package asked for, or installed already, is
 not marked as a dependency

---
 src/install.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/install.cxx b/src/install.cxx
index 548505c..64b1708 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -25,6 +25,7 @@ install::install(const CardsArgumentParser& argParser,
 	}
 
 	buildDatabase(true);
+	std::set<std::string> requestedPackages;
 	for(auto pkg : m_argParser.otherArguments()) {
 		std::set<std::string> SetOfPackages = m_pkgrepo.getListOfPackagesFromSet(pkg);
 		if (SetOfPackages.empty())
@@ -36,6 +37,7 @@ install::install(const CardsArgumentParser& argParser,
 				if (checkPackageNameExist(i))
 					continue;
 
+				requestedPackages.insert(i);
 				m_pkgrepo.generateDependencies(i);
 			}
 		} else if (checkRegularFile(pkg)) {
@@ -64,6 +66,7 @@ install::install(const CardsArgumentParser& argParser,
 			syslog(LOG_INFO,"%s",p.c_str());
 		} else {
 			// It's a normal package
+			requestedPackages.insert(pkg);
 			m_pkgrepo.generateDependencies(pkg);
 		}
 	}
@@ -82,7 +85,10 @@ install::install(const CardsArgumentParser& argParser,
 		} else {
 			m_upgrade = false;
 		}
-		if (i.second > 0)
+		// Neither a package asked for nor one which is already
+		// installed becomes a mere dependency
+		if ((i.second > 0) && !m_upgrade
+			&& (requestedPackages.find(i.first) == requestedPackages.end()))
 			setDependency();
 		p += "("
 			+ packageArchive.collection()
-- 
2.43.0


From 3049d31d784abb06da0b91d9090d42ac20223477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 036/108] fix: cards remove of an alias is cards remove of the
 package

---
 src/remove.cxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 7bd9c57..f077869 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -35,9 +35,14 @@ remove::remove(const std::string& commandName,
 			treatErrors(i);
 		}
 
+		// if it's an alias get the real name
+		std::string name = i;
+		if (m_listOfAlias.find(i) != m_listOfAlias.end())
+			name = m_listOfAlias[i];
+
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if ((i == k.first) || (name == k.first)) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -61,11 +66,9 @@ remove::remove(const std::string& commandName,
 				}
 			}
 		}
-		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
-			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+		if (m_listOfPackages.find(name) != m_listOfPackages.end()) {
+			PackageToRemove.first = name;
+			PackageToRemove.second = m_listOfPackages[name].collection();
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
@@ -84,8 +87,6 @@ remove::remove(const std::string& commandName,
 			listOfPackagesToRemove.insert(i);
 	}
 	for ( auto i : listOfPackagesToRemove ) {
-		if (i.first.size() == 0 )
-			continue;
 		m_packageName = i.first;
 		if ((i.second == "base") &&
 			(!m_argParser.isSet(CardsArgumentParser::OPT_FORCE))) {
-- 
2.43.0


From 36e0bcb95d28162f7eb14c1ed08e8746d0de3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 037/108] fix: cards remove removes each of the sets it is
 given and tells what it can not find

---
 src/remove.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index f077869..ae6e889 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -24,6 +24,7 @@ remove::remove(const std::string& commandName,
 	std::pair<std::string,std::string> PackageToRemove;
 
 	for ( auto i : m_argParser.otherArguments() ) {
+		bool found = false;
 		if ( i == "base" ) {
 			m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 			std::cout << std::endl
@@ -53,15 +54,17 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.first=j.first;
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
+				found = true;
 			}
 		}
-		if (listOfPackagesToRemove.empty()) {
+		if (!found) {
 			for (auto j : m_listOfPackages) {
 				for (auto k : j.second.sets()) {
 					if ( i == k ) {
 						PackageToRemove.first = j.first;
 						PackageToRemove.second=j.second.collection();
 						listOfPackagesToRemove.insert(PackageToRemove);
+						found = true;
 					}
 				}
 			}
@@ -70,6 +73,11 @@ remove::remove(const std::string& commandName,
 			PackageToRemove.first = name;
 			PackageToRemove.second = m_listOfPackages[name].collection();
 			listOfPackagesToRemove.insert(PackageToRemove);
+			found = true;
+		}
+		if (!found) {
+			m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_INSTALL;
+			treatErrors(i);
 		}
 	}
 	std::set< std::pair<std::string,std::string> > groupSetPackagesToRemove;
-- 
2.43.0


From 8bddcde9dc85959068ed5a6cf9c6ecfc18fd045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 038/108] fix: cards remove refuses a package of the base
 system before removing another one

---
 src/remove.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index ae6e889..494aa7e 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -95,12 +95,14 @@ remove::remove(const std::string& commandName,
 			listOfPackagesToRemove.insert(i);
 	}
 	for ( auto i : listOfPackagesToRemove ) {
-		m_packageName = i.first;
 		if ((i.second == "base") &&
 			(!m_argParser.isSet(CardsArgumentParser::OPT_FORCE))) {
 				m_actualError = cards::ERROR_ENUM_PACKAGE_IN_BASESYSTEM;
 				treatErrors(i.first);
 		}
+	}
+	for ( auto i : listOfPackagesToRemove ) {
+		m_packageName = i.first;
 		run();
 		std::string name = "(" +  m_packageCollection + ") ";
 		name += i.first;
-- 
2.43.0


From 18520d4c67aa28515c37ea3899dfb4f6caba940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 039/108] fix: cards remove removes the packages of a group,
 not what is an alias of one

---
 src/remove.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 494aa7e..03c022e 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -91,8 +91,9 @@ remove::remove(const std::string& commandName,
 		}
 	}
 	for ( auto i : groupSetPackagesToRemove ) {
-		if (checkPackageNameExist(i.first))
-			listOfPackagesToRemove.insert(i);
+		auto j = m_listOfPackages.find(i.first);
+		if (j != m_listOfPackages.end())
+			listOfPackagesToRemove.insert(std::make_pair(j->first, j->second.collection()));
 	}
 	for ( auto i : listOfPackagesToRemove ) {
 		if ((i.second == "base") &&
@@ -133,7 +134,7 @@ remove::remove(const std::string& commandName,
 		}
 	}
 	for ( auto i : obsoletsGroups ) {
-		if (checkPackageNameExist(i))
+		if (m_listOfPackages.find(i) != m_listOfPackages.end())
 			obsoletsDeps.insert(i);
 	}
 	for ( auto i : obsoletsDeps ) {
-- 
2.43.0


From 60d9988bd6425e8b618e4abff0081f27f3242656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 040/108] fix: the percentage of obsolete packages of a system
 without packages, and of many

---
 src/diff.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 3aaab25..05cce3e 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -105,8 +105,9 @@ const unsigned long diff::RemoveSize()
 }
 const unsigned int diff::ratio()
 {
-	auto p = ((float)m_packagesOK/m_listOfPackages.size())*100;
-	return 100 - (int)p;
+	if (m_listOfPackages.empty())
+		return 0;
+	return 100 - (unsigned long)m_packagesOK * 100 / m_listOfPackages.size();
 }
 void diff::showInfo(bool details)
 {
-- 
2.43.0


From cd15a6ead6f9c955fea84c5e71952b3f7887b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 041/108] fix: cards diff counts the size of the obsolete
 packages, and has no value undefined

---
 src/diff.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 05cce3e..fe6cdf9 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -21,12 +21,9 @@ diff::diff(const CardsArgumentParser& argParser,
 {
     buildDatabase(false);
 
-	m_package packageNameToDeal;
 	std::pair<std::string, time_t> packageNameBuild;
 	for (auto i:m_listOfPackages) {
-		packageNameToDeal.available_size = 0;
-		packageNameToDeal.installed_space = 0;
-		packageNameToDeal.available_space = 0;
+		m_package packageNameToDeal = m_package();
 		if (m_pkgrepo.checkBinaryExist(i.first)) {
 			packageNameBuild.first = i.first;
 			packageNameBuild.second = m_pkgrepo.getBinaryBuildTime(i.first);
@@ -59,6 +56,7 @@ diff::diff(const CardsArgumentParser& argParser,
 			if(i.second.dependency()) {
 				++m_packagesObsolet;
 				packageNameToDeal.status = STATUS_ENUM_UPG_OBSOLET;
+				packageNameToDeal.installed_space = i.second.space();
 			} else {
 				++m_packagesUnMaint;
 				packageNameToDeal.status = STATUS_ENUM_UPG_UNMAINT;
-- 
2.43.0


From acc404d3828e093f89e3575be8b95f2e930ac9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 042/108] fix: what an upgrade adds to satisfy a dependency is
 marked as a dependency

---
 src/upgrade.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 9d07d3a..8cd73fc 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -145,6 +145,15 @@ void upgrade::upgradePackages()
 		else
 			m_upgrade=false;
 
+		// A new package which is not an update itself
+		bool update = false;
+		for (auto j : m_ListOfPackagesToUpdate) {
+			if (j.first == i.first)
+				update = true;
+		}
+		if (!m_upgrade && !update)
+			setDependency();
+
 		run();
 		std::string p = i.first
 			+ " "
-- 
2.43.0


From d35cca84951e57e47180e7f7082b596944f58833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 043/108] fix: a signature which is not hexadecimal is a wrong
 one, not the end of the program

---
 src/pkgrepo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index b7e86d9..1a27d79 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -914,6 +914,12 @@ void pkgrepo::sign(const std::string& packageName)
 bool pkgrepo::checkSign(const std::string& name)
 {
     EVP_PKEY* key = nullptr;
+    std::string signature = m_listOfPackages[name].signature();
+
+    // What is not hexadecimal is not a signature
+    if (signature.length() % 2 != 0
+        || signature.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+        return false;
 
     // generated hashsum is stored in m_packageFileNameHash
     generateHash(m_listOfPackages[name].dirName()
@@ -954,7 +960,6 @@ bool pkgrepo::checkSign(const std::string& name)
         return false;
     }
 
-    std::string signature = m_listOfPackages[name].signature();
     std::vector<unsigned char> sigBytes(signature.length() / 2);
     for (size_t i = 0; i < signature.length(); i += 2)
         sigBytes[i / 2] = static_cast<unsigned char>(std::stoi(signature.substr(i, 2), nullptr, 16));
-- 
2.43.0


From 1bebaaf22779c75e6ed5ef621d91d47f44253be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 044/108] fix: a collection without packages, or not there,
 does not hide those after it from cards list and search

---
 src/list.cxx   | 36 ++++++++++++++++++++++++++++++------
 src/search.cxx | 18 +++++++++++++++---
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/list.cxx b/src/list.cxx
index 1e0813a..88b8868 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -32,6 +32,18 @@ void list::parseSets() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            std::cerr << "Cannot read "
+                << s
+                << "\n... continue with next"
+                << std::endl;
+            continue;
+        }
+        // A collection without packages
+        if (i.sRepo == 0) {
+            close(fd);
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -40,17 +52,17 @@ void list::parseSets() {
 		    perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n... continue with next"
                 << std::endl;
 		    close(fd);
-		    return;
+		    continue;
 		}
 
         const char *p = data;
 		const char *end = data + i.sRepo;
 
         while (p < end) {
-            const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+            const char *nl = (const char*)memchr(p, '\n', end - p);
             if (!nl)
                 nl = end;
 
@@ -89,6 +101,18 @@ void list::parse() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
     
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            std::cerr << "Cannot read "
+                << s
+                << "\n... continue with next"
+                << std::endl;
+            continue;
+        }
+        // A collection without packages
+        if (i.sRepo == 0) {
+            close(fd);
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -97,10 +121,10 @@ void list::parse() {
 			perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n... continue with next"
                 << std::endl;
 			close(fd);
-			return;
+			continue;
 		}
 
 		const char *p = data;
@@ -110,7 +134,7 @@ void list::parse() {
         pkg.col=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
diff --git a/src/search.cxx b/src/search.cxx
index 00dc6d4..d754845 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -23,6 +23,18 @@ void search::parse(){
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            std::cerr << "Cannot read "
+                << s
+                << "\n... continue with next"
+                << std::endl;
+            continue;
+        }
+        // A collection without packages
+        if (i.sRepo == 0) {
+            close(fd);
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -31,10 +43,10 @@ void search::parse(){
 			perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n... continue with next"
                 << std::endl;
 			close(fd);
-			return;
+			continue;
 		}
 
 		const char *p = data;
@@ -44,7 +56,7 @@ void search::parse(){
         pkg.collection=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
-- 
2.43.0


From 302e885dd5b8a285b3bf197f7fa023c8979c36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 045/108] fix: cards search does not take the url or packager
 of one package for those of the next

---
 src/search.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/search.cxx b/src/search.cxx
index d754845..c30052b 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -62,9 +62,9 @@ void search::parse(){
 
 			if (p[0] == '\n') {
 				m_listOfPackages.push_back(pkg);
-				pkg.group="";
-				pkg.description="";
-				pkg.nls="";
+				// Nothing is taken over by the next package
+				pkg = package();
+				pkg.collection=" ";
 			} else {
 				size_t len = nl - p;
 				std::string found(p + 1, len - 1);
-- 
2.43.0


From b87930d131d1a19746eb3f13554880f2f25d37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 046/108] fix: cards search finds sets and categories, and
 names with capital letters

---
 src/search.cxx | 18 +++++++++++++++---
 src/search.h   |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/search.cxx b/src/search.cxx
index c30052b..c19ea6d 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -96,6 +96,12 @@ void search::parse(){
 					case NLS:
 						pkg.nls = found;
 						break;
+					case SETS:
+						pkg.sets.push_back(found);
+						break;
+					case CATEGORIES:
+						pkg.categories.push_back(found);
+						break;
 				}
 			}
 			p = nl + 1;
@@ -115,7 +121,7 @@ void search::list() {
 		std::string::size_type pos;
 
 		if (m_argParser.isSet(CardsArgumentParser::OPT_NAMES)) {
-			if ( j.name.find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
+			if ( convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
 					continue;
 
 			std::cout << "(" << j.collection << ") ";
@@ -129,9 +135,9 @@ void search::list() {
 					<< std::endl;
 			continue;
 		}
-		pos = j.collection.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		pos = convertToLowerCase(j.collection).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-			pos = j.name.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+			pos = convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.description).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
@@ -140,6 +146,12 @@ void search::list() {
 			pos = convertToLowerCase(j.packager).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.version).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		for (const auto& names : {j.sets, j.categories}) {
+			for (const auto& i : names) {
+				if  (pos == std::string::npos)
+					pos = convertToLowerCase(i).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+			}
+		}
 		if (pos != std::string::npos) {
 			if (j.nls.size() > 0) {
 				found = false;
diff --git a/src/search.h b/src/search.h
index 5d5c696..96f6abc 100644
--- a/src/search.h
+++ b/src/search.h
@@ -22,6 +22,8 @@ class search {
 		std::string packager;
 		std::string group;
 		std::string nls;
+		std::vector<std::string> sets;
+		std::vector<std::string> categories;
 	};
 
     const CardsArgumentParser& m_argParser;
-- 
2.43.0


From a7e54ade89478efe529b23ecceedddb7cb03bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 047/108] fix: cards query -b does not take the blank line
 after a package for a file

---
 src/query.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/query.cxx b/src/query.cxx
index 24e0edc..f1b4c58 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -50,6 +50,9 @@ void query::parse() {
 
         std::string line;
         while (getline(in, line)) {
+            // Between the packages
+            if (line.empty())
+                continue;
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
                 continue;
-- 
2.43.0


From 407b9e41ff55391d9d33ec4bed956a6358eff685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 048/108] fix: cards files -b lists the files of the package of
 that name, not of one which ends alike

---
 src/files.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/files.cxx b/src/files.cxx
index 8d291fa..2af8675 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -35,7 +35,7 @@ void files::parse() {
         while (getline(in, line)) {
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
-				if (pos != std::string::npos) {
+				if (pos == 0) {
 					pkgFound = true;
 					continue;
 				}
-- 
2.43.0


From c6d0e3401930b47b540ec8053e90acd0615e6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 049/108] fix: a package which was just removed does not
 reappear among the installed ones

---
 src/pkgdbh.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 0462362..990ff40 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -956,7 +956,6 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
-- 
2.43.0


From 63b871113a08673c202c536d53c79e901915c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 050/108] fix: a package which needs itself can be removed

---
 src/remove.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remove.cxx b/src/remove.cxx
index 03c022e..330f98d 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -43,6 +43,9 @@ remove::remove(const std::string& commandName,
 
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
+				// that a package needs itself does not hold it
+				if (j.first == name)
+					break;
 				if ((i == k.first) || (name == k.first)) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
-- 
2.43.0


From 7a7a6c514fb7620943b02d1e48a8ad838f819d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 051/108] fix: cards sync fails when the meta data of a
 collection can not be uncompressed

---
 src/sync.cxx | 85 +++++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/sync.cxx b/src/sync.cxx
index 4f8a11d..ec97ff6 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -63,52 +63,57 @@ void sync::run()
 void sync::uncompress(const std::string& fileName)
 {
 	std::ifstream inFile(fileName + ".zst", std::ios::binary);
-	if (!inFile) {
-		std::cerr << "Cannot open file: " << fileName << "\n";
-		return;
-	}
+	if (!inFile)
+		throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 
-	inFile.seekg(0, std::ios::end);
-	size_t compressSize = inFile.tellg();
-	inFile.seekg(0, std::ios::beg);
-
-	std::vector<char> compressData(compressSize);
-	inFile.read(compressData.data(), compressSize);
-	inFile.close();
-
-	// Findout memory buffer
-	size_t decompressSize = ZSTD_getFrameContentSize(compressData.data(), compressSize);
-	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN) {
-		std::cerr << "Unknown size"
-			<< std::endl;
-		return;
-	} else if (decompressSize == ZSTD_CONTENTSIZE_ERROR) {
-		std::cerr << "Something wrong in the compress file:"
-			<< fileName
-			<< std::endl;
-		return;
+	// The previous file stays in place until the new one is complete
+	std::string newFile = fileName + ".new";
+	std::ofstream outFile(newFile, std::ios::binary|std::ios::out|std::ios::trunc);
+	if (!outFile)
+		throw std::runtime_error("Cannot open file: " + newFile);
+
+	std::string error;
+	ZSTD_DCtx* context = ZSTD_createDCtx();
+	if (!context)
+		error = "not enough memory";
+
+	std::vector<char> compressData(ZSTD_DStreamInSize());
+	std::vector<char> decompressData(ZSTD_DStreamOutSize());
+	// What is still missing in the actual frame, an empty file has no frame
+	size_t result = 1;
+	while (error.empty()) {
+		inFile.read(compressData.data(), compressData.size());
+		if (inFile.gcount() <= 0)
+			break;
+
+		ZSTD_inBuffer input = { compressData.data(), (size_t)inFile.gcount(), 0 };
+		ZSTD_outBuffer output;
+		do {
+			output = { decompressData.data(), decompressData.size(), 0 };
+			result = ZSTD_decompressStream(context, &output, &input);
+			if (ZSTD_isError(result)) {
+				error = ZSTD_getErrorName(result);
+				break;
+			}
+			outFile.write(decompressData.data(), output.pos);
+		} while ((input.pos < input.size) || ((result != 0) && (output.pos == output.size)));
 	}
+	ZSTD_freeDCtx(context);
 
-	// Decompress
-	std::vector<char> decompressData(decompressSize);
-	size_t result = ZSTD_decompress(decompressData.data(), decompressSize, compressData.data(), compressSize);
+	if (error.empty() && (inFile.bad() || (result != 0)))
+		error = "the file is not complete";
 
-	if (ZSTD_isError(result)) {
-	std::cerr << "Error uncompressing: "
-		<< ZSTD_getErrorName(result)
-		<< std::endl;
-	return;
-	}
+	outFile.close();
+	if (error.empty() && !outFile)
+		error = "cannot write " + newFile;
 
-	// Write to file
-	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
-	if (!outFile)
-		std::cerr << "Can't open file: "
-		<< fileName
-		<< std::endl;
+	if (error.empty() && rename(newFile.c_str(), fileName.c_str()) != 0)
+		error = "cannot rename " + newFile;
 
-	outFile.write(decompressData.data(),decompressData.size());
-	outFile.close();
+	if (!error.empty()) {
+		unlink(newFile.c_str());
+		throw std::runtime_error("Error uncompressing: " + fileName + ".zst: " + error);
+	}
 }
 
 }
-- 
2.43.0


From f6986e5969099920510eb6042b09f72196196673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 052/108] fix: an empty file on a mirror replaces the one in
 the depot, and a failed write is a failed download

---
 src/dwl.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 9584b5c..82dbd37 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -99,8 +99,14 @@ void dwl::get()
 		m_url + "\nFILE  : " +
 		m_downloadFileName +"\n\n !!! download failed !!! \n");
 	}
-	if (m_destinationFile.stream) {
-		fclose(m_destinationFile.stream);
+	// Nothing was written when the remote file is empty
+	if (!m_destinationFile.stream)
+		m_destinationFile.stream = fopen(m_destinationFile.filename.c_str(), "w");
+	if (!m_destinationFile.stream)
+		throw std::runtime_error("Cannot open file: " + m_destinationFile.filename);
+	if (fclose(m_destinationFile.stream) != 0)
+		throw std::runtime_error("Cannot write file: " + m_destinationFile.filename);
+	{
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
-- 
2.43.0


From acfd2cbf2bdd0c35986a43eb49af7443f613fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 053/108] fix: cards without a command, and whatever exception,
 ends with a message

---
 src/cards.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cards.cxx b/src/cards.cxx
index 8f79987..0631244 100644
--- a/src/cards.cxx
+++ b/src/cards.cxx
@@ -28,7 +28,9 @@ using namespace std;
 
 int main(int argc, char** argv)
 {
-    string command = basename(argv[1]);
+    string command;
+    if (argc > 1)
+        command = basename(argv[1]);
     setlocale(LC_ALL, "");
     bindtextdomain(GETTEXT_PACKAGE, PACKAGE_LOCALE_DIR);
     textdomain(GETTEXT_PACKAGE);
@@ -273,7 +275,7 @@ int main(int argc, char** argv)
             cout << "not found" << endl;
             cout << cardsArgPars.getIdValue(cardsArgPars.command()) << endl;
         }
-    } catch (runtime_error& e) {
+    } catch (exception& e) {
         cerr << "cards " << PACKAGE_VERSION << " " << command << ": " << e.what() << endl;
         return EXIT_FAILURE;
     }
-- 
2.43.0


From e6f332e82f595bd6078bc355307e43bcac5a3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 054/108] fix: the database knows an obsolete package until its
 files are gone

---
 src/upgrade.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 8cd73fc..57bfeee 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -163,8 +163,9 @@ void upgrade::upgradePackages()
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
 		reloadDatabase();
-		removePackageFilesRefsFromDB(i);
+		// The database knows the package until its files are gone
 		removePackageFiles(i);
+		removePackageFilesRefsFromDB(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
 	}
 	m_config.purge();
-- 
2.43.0


From 69b91929f86827481bd1f4c02588856d3268cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 055/108] fix: a dir line without a directory in front of the
 collection does not stand for the root

'dir cli | http://...' made of cards purge, and of the end of each upgrade, a removal of every file of the system.
---
 src/conf.cxx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 155faa2..37f8101 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -43,12 +43,18 @@ void conf::parseConfig()
 					DU.url = "";
 				}
 
-				pos = dir.rfind('/');
+				while (!dir.empty() && dir.back() == '/')
+					dir.pop_back();
 
-				if (pos != std::string::npos) {
-					DU.collection = stripWhiteSpace(dir.substr(pos+1));
-					DU.depot = dir.substr(0,pos);
-				}
+				// Nothing else than the root directory is no collection
+				if (dir.empty())
+					continue;
+
+				// Without a path, it is a collection of the depot
+				pos = dir.rfind('/');
+				DU.collection = stripWhiteSpace(dir.substr(pos + 1));
+				if (pos != std::string::npos)
+					DU.depot = dir.substr(0, pos);
 				// TODO find a better solution
 				/*
 				for (auto i : m_dirUrl) {
@@ -62,6 +68,9 @@ void conf::parseConfig()
 					m_dirUrl.push_back(DU);
 			}
 			if (key == "collection") {
+				if (val.empty())
+					continue;
+
 				cards::DirUrl DU;
 				DU.collection = val;
 				for (auto i : m_dirUrl) {
-- 
2.43.0


From 5e18ac2ce29cc80a7a3786f405772d3a9c98e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 056/108] fix: a directory to create may have a path of any
 length

---
 src/file_utils.cxx | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index e171c46..7765760 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -276,30 +276,18 @@ int findDir(std::set<std::string>& filesList, const std::string& path)
 }
 bool createRecursiveDirs(const std::string& path)
 {
-  char opath[MAXPATHLEN];
-  char *p;
-  size_t len;
-  strcpy(opath, path.c_str());
-  len = strlen(opath);
-  if ( len > 1)
+  if (path.size() < 2)
+    return false;
+
+  for (std::string::size_type pos = path.find('/'); pos != std::string::npos; pos = path.find('/', pos + 1))
   {
-    if(opath[len - 1] == '/')
-      opath[len - 1] = '\0';
-    for(p = opath; *p; p++)
-    {
-      if(*p == '/')
-      {
-        *p='\0';
-        if(access(opath, 0))
-          mkdir(opath,S_CARDS_MODE);
-        *p = '/';
-      }
-    }
-    if(access(opath, 0))
-      mkdir(opath,S_CARDS_MODE);
-    return true;
+    const std::string dir = path.substr(0, pos);
+    if (access(dir.c_str(), 0))
+      mkdir(dir.c_str(), S_CARDS_MODE);
   }
-  return false;
+  if (access(path.c_str(), 0))
+    mkdir(path.c_str(), S_CARDS_MODE);
+  return true;
 }
 
 int findRecursiveFile(std::set<std::string>& filenameList, const char *filename, int spec)
-- 
2.43.0


From 318035adab90f979cd34f137bcc135a4df175bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 057/108] fix: nothing of one Pkgfile is taken over for the
 next port

Neither the version and the like when the next one has none, nor an open list of
dependencies. A port which can not be read had no index, and those of the previous one.
---
 src/pkgfile.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..344ab0f 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -83,9 +83,7 @@ void pkgfile::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cards::port info;
     unsigned int index = 0;
-    bool found = false;
 
     for (auto i : m_config.dirUrl()) {
         DIR* d;
@@ -101,8 +99,12 @@ void pkgfile::parse()
                 if (!checkFileExist(Pkgfile))
                     continue;
 
+                // Nothing is taken over from the previous port
+                cards::port info;
+                bool found = false;
                 info.collection(i.collection);
                 info.release(1);
+                info.index(index++);
                 std::vector<std::string> pkgFileContent;
                 if (parseFile(pkgFileContent, Pkgfile.c_str()) != 0) {
                     std::cerr << "Cannot read the file: " << Pkgfile
@@ -169,10 +171,9 @@ void pkgfile::parse()
                 // and probably generate a full value with echo $version-$release
                 // info.version(getVariable(Pkgfile, "version"));
                 info.dependencies(parseDelimitedSetList(s, " "));
-                info.index(index);
                 m_listOfPackages[portName] = info;
-                ++index;
             }
+            closedir(d);
         }
     }
     confirmDependencies();
-- 
2.43.0


From 2c938a2389cc4a0a6953d3fd62cef4e805a1aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 058/108] fix: a port of several collections is the one of the
 collection listed first

---
 src/pkgfile.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 344ab0f..775124a 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -99,6 +99,10 @@ void pkgfile::parse()
                 if (!checkFileExist(Pkgfile))
                     continue;
 
+                // The directories listed first have precedence
+                if (m_listOfPackages.find(portName) != m_listOfPackages.end())
+                    continue;
+
                 // Nothing is taken over from the previous port
                 cards::port info;
                 bool found = false;
-- 
2.43.0


From 21620e807102930b2701146aee8378f012a15b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 059/108] fix: neither a comment nor what follows the list of
 dependencies of a port is a dependency

---
 src/pkgfile.cxx | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 775124a..399b67c 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -139,35 +139,22 @@ void pkgfile::parse()
                         info.contributors(stripWhiteSpace(getValueBefore(getValue(line, '='), '#')));
                     else if (line.substr(0, 11) == "maintainer=")
                         info.maintainer(stripWhiteSpace(getValueBefore(getValue(line, '='), '#')));
-                    else if (line.substr(0, 13) == "makedepends=(") {
-                        s += line.substr(13);
+                    else if ((line.substr(0, 13) == "makedepends=(")
+                        || (line.substr(0, 5) == "run=(")) {
+                        line = line.substr(line.find('(') + 1);
                         found = true;
-                        pos = s.find(')');
-                        if (pos != std::string::npos) {
-                            s[pos] = ' ';
-                            found = false;
-                        } else
-                            s = s + " ";
-                        continue;
-                    } else if (line.substr(0, 5) == "run=(") {
-                        s += line.substr(5);
-                        found = true;
-                        pos = s.find(')');
-                        if (pos != std::string::npos) {
-                            s[pos] = ' ';
-                            found = false;
-                        } else
-                            s = s + " ";
-                        continue;
                     }
                     if (found) {
+                        // Neither a comment nor what follows the list is a dependency
+                        pos = (" " + line).find(" #");
+                        if (pos != std::string::npos)
+                            line = line.substr(0, pos);
+
                         pos = line.find(')');
-                        if (pos != std::string::npos) {
-                            s += line.substr(0, pos);
-                            s = s + " ";
+                        if (pos != std::string::npos)
                             found = false;
-                        } else
-                            s = s + line + " ";
+
+                        s += line.substr(0, pos) + " ";
                     }
                 }
                 // when install-nutyx will install bash
-- 
2.43.0


From 15fd147de6ea6d180de92c4070119e19787fb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 060/108] fix: a dependency on a subpackage is one on its port,
 and a port may have a dot in its name

The dependencies of the port of a subpackage were missing in depends and deptree, and
who needs a subpackage in dependent; a port like lua5.1 was never found.
---
 src/pkgfile.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 399b67c..b4b2fdc 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -53,10 +53,18 @@ void pkgfile::confirmDependencies()
 {
     for (auto& i : m_listOfPackages) {
         std::vector<unsigned int> indexes;
+        std::set<std::string> dependencies;
         unsigned int n = 1;
         for (auto j : i.second.dependencies()) {
-            std::string s = getValueBeforeLast(j, '.');
+            // A subpackage is made by its port
+            std::string s = j;
+            if (m_listOfPackages.find(s) == m_listOfPackages.end())
+                s = getValueBeforeLast(j, '.');
+
             if (m_listOfPackages.find(s) != m_listOfPackages.end()) {
+                if (!dependencies.insert(s).second)
+                    continue;
+
                 if (i.second.index() == m_listOfPackages[s].index())
                     continue;
 
@@ -73,8 +81,10 @@ void pkgfile::confirmDependencies()
                 badDependency += ") ";
                 badDependency += " NOT FOUND ...";
                 m_badDependencies.push_back(badDependency);
+                dependencies.insert(j);
             }
         }
+        i.second.dependencies(dependencies);
         i.second.indexes(indexes);
     }
 }
-- 
2.43.0


From 9fb089c3cecb122d831456ab1f500afa3660ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 061/108] fix: deptree shows all the dependencies of a port
 which lists itself

---
 src/deptree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deptree.cxx b/src/deptree.cxx
index af57045..7873674 100644
--- a/src/deptree.cxx
+++ b/src/deptree.cxx
@@ -21,7 +21,7 @@ void deptree::print(std::string name, std::string space, int level)
         if (m_tree[name].dependencies().size() > 0) {
             for (auto n : m_tree[name].dependencies()) {
                 if (n == name)
-                    break;
+                    continue;
                 print(n, space, level);
             }
         }
-- 
2.43.0


From 21af69b4ffc28b02e98ea79fea5b08b17f21a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 062/108] fix: depends and deptree tell that there is no such
 port

---
 src/depends.cxx | 3 +++
 src/deptree.cxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/depends.cxx b/src/depends.cxx
index 8d63b50..ba0f641 100644
--- a/src/depends.cxx
+++ b/src/depends.cxx
@@ -24,6 +24,9 @@ void depends::list(std::string& name)
 }
 void depends::print(std::string name)
 {
+    if (!checkPackageNameExist(name))
+        throw std::runtime_error(_("The port ") + name + _(" is not existing"));
+
     list(name);
     auto level = m_tree[name].level();
     unsigned int currentLevel = 0;
diff --git a/src/deptree.cxx b/src/deptree.cxx
index 7873674..f95058d 100644
--- a/src/deptree.cxx
+++ b/src/deptree.cxx
@@ -3,6 +3,9 @@
 namespace cards {
 void deptree::print(std::string name, std::string space, int level)
 {
+    if (level == 0 && !checkPackageNameExist(name))
+        throw std::runtime_error(_("The port ") + name + _(" is not existing"));
+
     bool found = false;
     for (auto i : m_list) {
         if (name == i) {
-- 
2.43.0


From d8465848782da7d7381c6ff17751c9c0fca6c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 063/108] fix: a date too far away does not crash the display
 of a package

---
 src/file_utils.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 7765760..7fbaa83 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -71,6 +71,9 @@ std::string getDateFromEpoch(const time_t& epoch)
 {
 	const struct tm* time = localtime(&epoch);
 	char datetime[100] = {0};
+	// Too far away for a date
+	if (!time)
+		return "";
 	if ( strftime(datetime, 100, "%c", time) > 0 )
 		return datetime;
 	else
-- 
2.43.0


From de58d697b3027f0ddc0f2058f959a9196ec3ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 064/108] fix: tabs separate the dependencies of a port as well

---
 src/pkgfile.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index b4b2fdc..bb816e8 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -133,6 +133,7 @@ void pkgfile::parse()
                     std::string line = stripWhiteSpace(p);
                     replaceAll(line, ",", " ");
                     replaceAll(line, "\\", " ");
+                    replaceAll(line, "\t", " ");
                     if (line[0] == '#')
                         continue;
                     if (line.substr(0, 12) == "description=")
-- 
2.43.0


From 9002c54ec901a549c08863f023e14beebfdbb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 065/108] fix: an interrupted installation does not leave a
 complete looking record

The META of a package was written before the list of its files: killed in
between, the package looked installed and up to date, had no files, and
nothing brought it in order again. The list of files and the scripts come
first now, the META (with the mark of a dependency in it) last.
---
 src/create.cxx |  5 +----
 src/pkgadd.cxx |  5 +----
 src/pkgdbh.cxx | 13 +++++++++++--
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index df3d67f..384e845 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -284,11 +284,8 @@ void create::run()
 		keep_list, non_install_files);
 
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META)) {
-	    // Add the metadata about the package to the DB
+	    // Add the metadata about the package and its files to the DB
 	    moveMetaFilesPackage(package.first,package.second);
-
-	    // Add the info about the files to the DB
-	    addPackageFilesRefsToDB(package.first, package.second);
     } else {
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 70bff66..8b7b67a 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -126,11 +126,8 @@ void pkgadd::run()
 	installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
-	// Add the metadata about the package to the DB
+	// Add the metadata about the package and its files to the DB
 	moveMetaFilesPackage(package.first,package.second);
-
-	// Add the info about the files to the DB
-	addPackageFilesRefsToDB(package.first, package.second);
 	m_postInstallList.swap(toolsOfInstalled);
 
 	takePostInstallScript();
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 990ff40..a58346b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -706,7 +706,8 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
 		metaFilesList.insert(PKG_POST_REMOVE);
 
-	metaFilesList.insert(METAFILE);
+	// The META comes last: with it the package is installed
+	metaFilesList.erase(METAFILE);
 	std::set<std::string> fileContent;
 	if ( parseFile(fileContent,METAFILE) != 0 ) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_FIND_FILE;
@@ -731,8 +732,12 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			}
 		}
 	}
+
+	// Add the info about the files to the DB
+	addPackageFilesRefsToDB(name, info);
+
+	const std::string file = packagenamedir + PKG_META;
 	if (m_dependency) {
-		std::string file = packagenamedir + PKG_META;
 		const std::string file_new = file + ".imcomplete_transaction";
 		fileContent.insert("d1");
 		std::ofstream out(file_new);
@@ -746,7 +751,11 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			m_actualError = cards::ERROR_ENUM_CANNOT_RENAME_FILE;
 			treatErrors(file_new + " to " + file);
 		}
+		unlink(METAFILE);
 		m_dependency=false;
+	} else if (rename(METAFILE, file.c_str()) == -1) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_RENAME_FILE;
+		treatErrors(METAFILE + std::string(" to ") + file);
 	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
 }
-- 
2.43.0


From f4a876b7c068cbf327ce28f38f8c9fdcdb4c5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 066/108] fix: an upgrade keeps the record of a package until
 the new one is there

The record of the former version was removed before the files of the new
one were installed: killed in between, the package was not known any more,
and 'cards upgrade' did not bring it back. It stays now until the new one
takes its place.
---
 src/pkgadd.cxx |  3 +--
 src/pkgdbh.cxx | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 8b7b67a..027c16b 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -118,9 +118,8 @@ void pkgadd::run()
 			setDependency();
 
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
+		// The record stays until that of the new package takes its place
 		removePackageFiles(package.first, keep_list);
-		// Remove metadata about the package removed
-		removePackageFilesRefsFromDB(package.first);
 	}
 	// Installation progressInfo of the files on the HD
 	installArchivePackage(m_packageArchiveName,
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index a58346b..008c874 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -716,6 +716,23 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 
 	mkdir(packagenamedir.c_str(),0755);
 
+	// What the record of the former version has, and the new one not
+	std::set<std::string> formerFilesList;
+	if (findDir(formerFilesList, packagenamedir) != 0) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(packagenamedir);
+	}
+	for (auto i : formerFilesList) {
+		if ("/" + i == PKG_META || "/" + i == PKG_FILES
+			|| metaFilesList.find("." + i) != metaFilesList.end())
+			continue;
+		const std::string filename = packagenamedir + "/" + i;
+		if (remove(filename.c_str()) == -1) {
+			const char* msg = strerror(errno);
+			std::cerr << m_utilName << ": could not remove " << filename << ": " << msg << std::endl;
+		}
+	}
+
 	for (auto i : metaFilesList)
 	{
 		char * destFile = const_cast<char*>(i.c_str());
-- 
2.43.0


From e072a9096859fe7003836d2d7adcc4761743d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 067/108] fix: install completes the interrupted packages of a
 set

'cards install <set>' and 'cards install <collection>' took a package for
installed which had no META yet, and left it as it was.
---
 src/install.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/install.cxx b/src/install.cxx
index 64b1708..c057be9 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -34,7 +34,8 @@ install::install(const CardsArgumentParser& argParser,
 		if (!SetOfPackages.empty())  {
 			// It's a collection or a set
 			for (auto i : SetOfPackages ) {
-				if (checkPackageNameExist(i))
+				// Without a version, its installation was interrupted
+				if (checkPackageNameExist(i) && !getVersion(i).empty())
 					continue;
 
 				requestedPackages.insert(i);
-- 
2.43.0


From fadef35c96711d1aafff9c28484ad96a944ae361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 068/108] fix: a configuration which cannot be read is an error

When cards.conf was there, but could not be opened or read, it counted as
empty: sync and upgrade did nothing and reported success.
---
 src/conf.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 37f8101..2ac0a2a 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -12,9 +12,13 @@ conf::conf(const std::string& filename)
 }
 void conf::parseConfig()
 {
+	errno = 0;
 	std::ifstream in(m_filename);
-	if (!in)
+	if (!in) {
+		if (errno != 0 && errno != ENOENT && errno != ENOTDIR)
+			throw std::runtime_error("could not read " + m_filename + ": " + strerror(errno));
 		return;
+	}
 	std::string s;
 	while (getline(in, s)) {
 		bool found = false;
@@ -123,6 +127,9 @@ void conf::parseConfig()
 			}
 		}
 	}
+	if (in.bad())
+		throw std::runtime_error("could not read " + m_filename);
+
 	if (!m_url.empty()) {
 		for (auto& i : m_dirUrl) {
 			if (i.url.empty())
-- 
2.43.0


From 72bcb2ba8f8448ec69cb6b5861f2ad442de518d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 069/108] fix: purge tells what it could not remove

A directory which could not be read, or a file which could not be removed,
was passed over in silence.
---
 src/conf.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 2ac0a2a..55e7df2 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -186,9 +186,12 @@ void conf::purge()
 		if (collection.url.size() == 0 )
 			continue;
 
-		findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT);
-		for (auto file : listOfFiles)
-			remove(file.c_str());
+		if (findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT) != 0)
+			std::cerr << "could not read " << path << std::endl;
+		for (auto file : listOfFiles) {
+			if (remove(file.c_str()) == -1 && errno != ENOENT)
+				std::cerr << "could not remove " << file << ": " << strerror(errno) << std::endl;
+		}
 	}
 }
 conf::~conf()
-- 
2.43.0


From 02c0f71ead2c586310ef341a12009f5bd2f13ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 070/108] fix: the index of a collection which cannot be read
 is an error

When the .REPO of a collection was there, but reading it failed, its packages
counted as not offered any more: an upgrade took those of another collection
or removed them as obsolete.
---
 src/pkgrepo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 1a27d79..5e509dd 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -358,7 +358,12 @@ void pkgrepo::parse()
                 + i.collection);
         std::vector<std::string> repoFileContent;
 
-        if (parseFile(repoFileContent, repoFile.c_str()) != 0) {
+        const int result = parseFile(repoFileContent, repoFile.c_str());
+        if (result == -2) {
+            m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+            treatErrors(repoFile);
+        }
+        if (result != 0) {
             std::cerr << "Cannot read the file: "
                       << repoFile
                       << std::endl
-- 
2.43.0


From b8900d315a982fc069529bc690fb3b2d12572b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 071/108] fix: cards repo fails when a signature is wrong

It stopped at the first wrong signature, told that all the packages had been
checked, and reported success.
---
 src/repo.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index ddd02e1..d5afbad 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -15,17 +15,21 @@ repo::repo(const CardsArgumentParser& argParser,
 	keyfile += PRIVATEKEY;
     if ((config.keypath().empty()) ||
         (!checkFileExist(keyfile))) {
+        bool wrong = false;
         for (auto pkg : m_pkgrepo.getListOfPackages()) {
             if (!m_pkgrepo.checkSign(pkg.first)) {
                 std::cout << "Package "
                     << pkg.first
                     << ": Wrong signature !!!"
                     << std::endl;
-                break;
+                wrong = true;
             }
             if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                 rotatingCursor();
         }
+        if (wrong)
+            throw std::runtime_error("There are wrong signatures");
+
         std::cout << "All "
             << m_pkgrepo.getListOfPackages().size()
             << " packages checked"
-- 
2.43.0


From c36b18ee69b349fbf38e769c7175e9b0cb6954ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 072/108] fix: cards repo fails when it could not publish a
 collection

An unknown collection, files which could not be opened, read or written, a
full disk: there was a message at most, and success was reported.
---
 src/repo.cxx | 58 ++++++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index d5afbad..2bd6155 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -61,26 +61,21 @@ repo::repo(const CardsArgumentParser& argParser,
                 << std::endl;
 
             FILE* mp = fopen(repometa.c_str(),"w");
-            if (!mp) {
-                std::cout << "Cannot open "
-                    << repometa
-                    << std::endl;
-                return;
-            }
+            if (!mp)
+                throw RunTimeErrorWithErrno("Cannot open " + repometa);
+
             FILE* fp = fopen(repofile.c_str(),"w");
             if (!fp) {
-                std::cout << "Cannot open "
-                    << repofile
-                    << std::endl;
-                return;
+                fclose(mp);
+                throw RunTimeErrorWithErrno("Cannot open " + repofile);
             }
-            findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
+            if (findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT) != 0)
+                throw std::runtime_error("Cannot read " + path);
+
             for (auto file : listOfFiles) {
                 archive a(file);
-                if (stat(file.c_str(), &buf) != 0) {
-                    std::cerr << "Cannot find size of " << file << std::endl;
-                    return;
-                }
+                if (stat(file.c_str(), &buf) != 0)
+                    throw RunTimeErrorWithErrno("Cannot find size of " + file);
 
                 m_pkgrepo.generateHash(file);
                 pos = file.rfind( '/' );
@@ -123,8 +118,9 @@ repo::repo(const CardsArgumentParser& argParser,
                 if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                     rotatingCursor();
             }
-            fclose(fp);
-            fclose(mp);
+            const bool failed = ferror(fp) || ferror(mp);
+            if (fclose(fp) != 0 || fclose(mp) != 0 || failed)
+                throw std::runtime_error("Cannot write " + repometa + " and " + repofile);
             std::cout << std::endl;
             std::cout << "Compressing "
                 << repometa
@@ -142,12 +138,10 @@ repo::repo(const CardsArgumentParser& argParser,
                 << " packages signed"
                 << std::endl;
         else
-            if (!found) {
-                std::cerr << "Collection: "
-                    << m_argParser.otherArguments()[0]
-                    << " does not exist !!"
-                    << std::endl;
-            }
+            if (!found)
+                throw std::runtime_error("Collection: "
+                    + m_argParser.otherArguments()[0]
+                    + " does not exist !!");
     }
 
 }
@@ -155,9 +149,7 @@ void repo::compress(const std::string fileName) {
 
     std::ifstream inFile(fileName, std::ios::binary);
     if (!inFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName);
 
     inFile.seekg(0,std::ios::end);
     size_t inSize = inFile.tellg();
@@ -165,6 +157,8 @@ void repo::compress(const std::string fileName) {
 
     std::vector<char> inData(inSize);
     inFile.read(inData.data(), inSize);
+    if (!inFile)
+        throw std::runtime_error("Cannot read file: " + fileName);
     inFile.close();
 
     // Find Out the requested size
@@ -174,20 +168,18 @@ void repo::compress(const std::string fileName) {
     // Compression
     size_t result = ZSTD_compress(compressData.data(), compressSize, inData.data(), inSize, 19);
     if (ZSTD_isError(result))
-        std::cerr << "Compression error: "
-            << ZSTD_getErrorName(result)
-            << std::endl;
+        throw std::runtime_error(std::string("Compression error: ")
+            + ZSTD_getErrorName(result));
 
     std::ofstream outFile(fileName + ".zst", std::ios::binary);
 
     if (!outFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << ".zst"
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 
     outFile.write(compressData.data(), result);
     outFile.close();
+    if (!outFile)
+        throw std::runtime_error("Cannot write file: " + fileName + ".zst");
 
 }
 
-- 
2.43.0


From 079242eb22274b8dd5080fd136538a9d889c38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 073/108] fix: cards repo replaces what is published when all
 of it is there

The .REPO and .FILES of a collection were emptied first: with an archive which
could not be read, a full disk or a broken off run, the collection was left
with a part of its packages.
---
 src/repo.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index 2bd6155..f65e203 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -60,11 +60,12 @@ repo::repo(const CardsArgumentParser& argParser,
                 << repofile
                 << std::endl;
 
-            FILE* mp = fopen(repometa.c_str(),"w");
+            // What is published is replaced when all of it is there
+            FILE* mp = fopen((repometa + ".new").c_str(),"w");
             if (!mp)
                 throw RunTimeErrorWithErrno("Cannot open " + repometa);
 
-            FILE* fp = fopen(repofile.c_str(),"w");
+            FILE* fp = fopen((repofile + ".new").c_str(),"w");
             if (!fp) {
                 fclose(mp);
                 throw RunTimeErrorWithErrno("Cannot open " + repofile);
@@ -129,6 +130,10 @@ repo::repo(const CardsArgumentParser& argParser,
                 << std::endl;
             compress(repofile);
             compress(repometa);
+            for (auto file : {repofile, repofile + ".zst", repometa, repometa + ".zst"}) {
+                if (rename((file + ".new").c_str(), file.c_str()) == -1)
+                    throw RunTimeErrorWithErrno("Cannot replace " + file);
+            }
             if (m_argParser.otherArguments().size() > 0 )
                 break;
         }
@@ -147,7 +152,7 @@ repo::repo(const CardsArgumentParser& argParser,
 }
 void repo::compress(const std::string fileName) {
 
-    std::ifstream inFile(fileName, std::ios::binary);
+    std::ifstream inFile(fileName + ".new", std::ios::binary);
     if (!inFile)
         throw std::runtime_error("Cannot open file: " + fileName);
 
@@ -171,7 +176,7 @@ void repo::compress(const std::string fileName) {
         throw std::runtime_error(std::string("Compression error: ")
             + ZSTD_getErrorName(result));
 
-    std::ofstream outFile(fileName + ".zst", std::ios::binary);
+    std::ofstream outFile(fileName + ".zst.new", std::ios::binary);
 
     if (!outFile)
         throw std::runtime_error("Cannot open file: " + fileName + ".zst");
-- 
2.43.0


From acda928cef5bd1d6f32f5533433cd0da793ce2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 074/108] fix: the private key of cards keys is never readable
 by others

It was written with the default permissions and protected afterwards only; a
key pair which could not be written entirely was reported as generated.
---
 src/pkgrepo.cxx | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 5e509dd..9662a69 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -89,8 +89,20 @@ void pkgrepo::generateKeys()
     }
     EVP_PKEY_CTX_free(ctx);
 
-    FILE* f = fopen(keyfile.c_str(), "w");
+    // Nobody else is to read it, at no time
+    int fd = open(keyfile.c_str(), O_WRONLY | O_CREAT, 0600);
+    if (fd != -1 && fchmod(fd, 0600) == -1) {
+        close(fd);
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+        treatErrors(keyfile);
+    }
+    FILE* f = nullptr;
+    if (fd != -1 && ftruncate(fd, 0) == 0)
+        f = fdopen(fd, "w");
     if (!f) {
+        if (fd != -1)
+            close(fd);
         EVP_PKEY_free(key);
         m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
         treatErrors(keyfile);
@@ -102,9 +114,9 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
-    if (chmod(keyfile.c_str(), 0600) == -1) {
-        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+    if (fclose(f) != 0) {
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
     keyfile = ".";
@@ -122,8 +134,11 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
     EVP_PKEY_free(key);
+    if (fclose(f) != 0) {
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
+        treatErrors(keyfile);
+    }
 }
 void pkgrepo::generateDependencies()
 {
-- 
2.43.0


From ad30046e764dd5fbefa47770c59d4f1e4352ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 075/108] fix: an archive of which the metadata cannot be read
 entirely is refused

---
 src/archive.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archive.cxx b/src/archive.cxx
index ffb1fbf..2673f2c 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -95,6 +95,12 @@ void archive::extractFileContent
             la_ssize_t length;
             while ((length = archive_read_data(ar, buffer, sizeof(buffer))) > 0)
                 content.append(buffer, length);
+            // What is known of them then is not all of it
+            if (length < 0) {
+                archive_read_free(ar);
+                m_actualError = cards::CANNOT_READ_ARCHIVE;
+                treatErrors(m_fileName);
+            }
             list = parseDelimitedVectorList(content,'\n');
             break;
         }
-- 
2.43.0


From 8928280ba25aa92b8996b34c9d773c400113eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 076/108] fix: pkgmk does not lose lib/pkgconfig when lib is
 packed before devel

pack_lib keeps the directory for devel (or for the package itself), remove_lib then
removed it: its files were in no package.
---
 scripts/pkgmk.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index bc215cd..7b045dd 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -517,7 +517,8 @@ remove_lib() {
 	for DIR in usr opt/*; do
 		for SUBDIR in lib lib64;do
 			if [ -d $DIR/$SUBDIR ]; then
-				rm -r $DIR/$SUBDIR
+				find $DIR/$SUBDIR -mindepth 1 -maxdepth 1 ! -name pkgconfig -exec rm -r -- '{}' +
+				[ -d $DIR/$SUBDIR/pkgconfig ] || rmdir $DIR/$SUBDIR
 			fi
 		done
 	done
-- 
2.43.0


From b5aeea50dc6e4c8f994546174ea92fbbeb0ed7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 077/108] fix: pkgmk removes libtool files before it packs the
 groups

They were removed when lib was packed already, so PKGMK_KEEP_LA_LIBS=no had no effect on
the package of the libraries.
---
 scripts/pkgmk.in | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 7b045dd..5455e17 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -973,6 +973,7 @@ build_package() {
 		fi
 
 		compress_manpages
+		remove_la_libs
 		clean_old_binaries
 
 
@@ -1218,11 +1219,13 @@ clean_repo_file() {
 		info "Removing $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
 	fi
 }
-check_build() {
-	local LIST
+remove_la_libs() {
 	if [ "$PKGMK_KEEP_LA_LIBS" != "yes" ]; then
 		find $PKG ! -type d -name "*.la" -exec rm -fv -- '{}' +
 	fi
+}
+check_build() {
+	local LIST
 	LIST="$(find $PKG ! -type d -name "*.la")"
 	if [ ! -z "$LIST" ]; then
 		warning "following files should be removed:"
-- 
2.43.0


From b8741aaa30a8447a9be3d20e270a63220f2c34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 078/108] fix: pkgmk fails when it refuses what was built

abort_on_build is called without a status for usr/sbin, sbin and the locales; pkgmk said
ERROR and exited with 0.
---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 5455e17..5a46d8d 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -29,7 +29,7 @@ error() {
 }
 abort_on_build() {
         error "$1"
-        exit $2
+        exit ${2:-$E_BUILD}
 }
 have_function() {
 	declare -f "$1" >/dev/null
-- 
2.43.0


From 2ccd4e42701dac7ed56d9eeb8f82e18971e5d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 079/108] fix: the package of a locale is no alias of the whole
 package

The aliases of the packages of groups have the name of the group, those of locales had
none: each of them claimed to be the package itself.
---
 scripts/pkgmk.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 5a46d8d..86f03ec 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -853,10 +853,10 @@ add_meta_to_archive() {
 	if [ ! -z $alias ]; then
 		info "Adding Alias to Archive $NAME"
 		for al in ${alias[@]}; do
-			if [ -z "$GROUP" ];then
+			if [ -z "$G" ];then
 				echo "A$al" >> .META
 			else
-				echo "A$al.$GROUP" >> .META
+				echo "A$al.${GROUP}${NLS}" >> .META
 			fi
 		done
 	fi
-- 
2.43.0


From 99f2cfb2fbf08b44f3853c66f94870d6b185df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 080/108] fix: a function of a locale which fails is an error

The status tested was the one of the assignment.
---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 86f03ec..986921d 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1024,8 +1024,8 @@ build_package() {
 			if [ "$(type -t locale_${group})" == "function" ]; then
 				BUILD_SUCCESSFUL="no"
 				(set -e -x ;locale_${group})
-				j=1
 				if [ $? = 0 ]; then
+					j=1
 					BUILD_SUCCESSFUL="yes"
 				else
 					remove_dependencies
-- 
2.43.0


From c706236b64ce7a87eb0a2464d7b2e0c6b34b728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 081/108] fix: pkgmk leaves the entries of other ports in the
 index

Updating the entry of foo removed those of foo-bar as well and wrote them again; what is in
the index of packages which are not there, or are written by others, was lost, and when no
package was there, an entry for the pattern was written.
---
 scripts/pkgmk.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 986921d..3033d2b 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1195,11 +1195,13 @@ update_repo_file() {
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 
-	sed -i "/^@$name.*/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-	sed -i "/^@$name.*/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
+	# the packages of this port, not those of a port of which the name begins the same
+	sed -i "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
+	sed -i "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 
-	for TARGET in $PKGMK_PACKAGE_DIR/${name}*${PKGMK_PACKAGE_EXT}*
+	for TARGET in $PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}* $PKGMK_PACKAGE_DIR/${name}.*${PKGMK_PACKAGE_EXT}*
 	do
+		[ -f $TARGET ] || continue
 		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
 		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 		$PKGMK_PKGINFO -m $TARGET   >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-- 
2.43.0


From f93d02c446bbb74282e2906fff66f1257e255e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 082/108] fix: a build which fails leaves the packages as they
 were

The packages were assembled in their place: after a failed group, a footprint mismatch, a
missing run time dependency or an interruption there were packages without metadata, the
old ones were gone, and the next pkgmk said of those which are there that they are up to
date. They are made in the working directory now and moved when all are complete.
---
 scripts/pkgmk.in | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 3033d2b..dd3fd53 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -354,7 +354,7 @@ get_packages_list() {
 	FILTER=${PKGMK_PACKAGE_EXT##*.}
 	i=0
 	unset TARGETS
-	for FILE in $(find $PKGMK_PACKAGE_DIR -name "$name.*${FILTER}*"); do
+	for FILE in $(find $PKGMK_PACKAGE_DIR -maxdepth 1 -name "$name.*${FILTER}*"); do
 		TARGETS[i]="$(basename $FILE)"
 		i=$((i+1))
 	done
@@ -905,7 +905,7 @@ compress_archive() {
 }
 build_package() {
 	# TODO find a better solution for the hardcoded folders
-	local BUILD_SUCCESSFUL="no"
+	local BUILD_SUCCESSFUL="no" FINAL_DIR="$PKGMK_PACKAGE_DIR"
 
 	if [ ! -z $TARGETS ]; then
 		for TARGET in ${TARGETS[@]}; do
@@ -974,9 +974,11 @@ build_package() {
 
 		compress_manpages
 		remove_la_libs
-		clean_old_binaries
-
 
+		# The packages take the place of the old ones when all of them are complete
+		local PKGMK_PACKAGE_DIR="$PKGMK_WORK_DIR/packages"
+		rm -rf $PKGMK_PACKAGE_DIR
+		mkdir -p $PKGMK_PACKAGE_DIR || abort_on_build "Cannot create $PKGMK_PACKAGE_DIR"
 
 		cd $PKG
 		i=0
@@ -1088,6 +1090,7 @@ build_package() {
 			add_meta_files "$(basename $TARGET)"
 			add_meta_to_archive "$(basename $TARGET)"
 		fi
+		replace_binaries "$FINAL_DIR"
 		if [ "$PKGMK_KEEP_WORK" = "no" ]; then
 			rm -rf $PKGMK_WORK_DIR
 		fi
@@ -1244,6 +1247,19 @@ check_build() {
 	fi
 
 }
+replace_binaries() {
+	local STAGE="$PKGMK_PACKAGE_DIR" PKGMK_PACKAGE_DIR="$1" TARGET
+
+	cd $PKGMK_ROOT
+	clean_old_binaries
+	# The package itself comes last: without it the port is not up to date
+	for TARGET in $(find $STAGE -type f ! -name "${name}${PKGMK_PACKAGE_EXT}*") $STAGE/${name}${PKGMK_PACKAGE_EXT}*; do
+		mv $TARGET $PKGMK_PACKAGE_DIR/.$(basename $TARGET) && \
+		mv $PKGMK_PACKAGE_DIR/.$(basename $TARGET) $PKGMK_PACKAGE_DIR/$(basename $TARGET) || \
+			abort_on_build "Cannot move $(basename $TARGET) to $PKGMK_PACKAGE_DIR"
+	done
+	rmdir $STAGE
+}
 clean_old_binaries() {
 
 	local TARGET
-- 
2.43.0


From 4909d968b88ec604beae3a44215f9ea5764ed655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 083/108] fix: pkgmk fails when it cannot complete a package

The status of bsdtar and cp was ignored when the files, the scripts and the metadata are
put into the packages: a package without them, and an exit status of 0.
---
 scripts/pkgmk.in | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index dd3fd53..f57e29e 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -722,21 +722,21 @@ add_meta_files() {
 	NAME="$(get_package_name $1)"
 	cd $PKG
 	if [ -f $PKGMK_ROOT/${NAME}.pre-install ]; then
-		cp $PKGMK_ROOT/${NAME}.pre-install .PRE
+		cp $PKGMK_ROOT/${NAME}.pre-install .PRE || abort_on_build "$1"
 	fi
 	if [ -f $PKGMK_ROOT/${NAME}.post-install ]; then
-		cp $PKGMK_ROOT/${NAME}.post-install .POST
+		cp $PKGMK_ROOT/${NAME}.post-install .POST || abort_on_build "$1"
 	fi
 	if [ -f $PKGMK_ROOT/${NAME}.pre-remove ]; then
-		cp $PKGMK_ROOT/${NAME}.pre-remove .PRER
+		cp $PKGMK_ROOT/${NAME}.pre-remove .PRER || abort_on_build "$1"
 	fi
 	if [ -f $PKGMK_ROOT/${NAME}.post-remove ]; then
-		cp $PKGMK_ROOT/${NAME}.post-remove .POSTR
+		cp $PKGMK_ROOT/${NAME}.post-remove .POSTR || abort_on_build "$1"
 	fi
 	for file in .PRE .POST .PRER .POSTR; do
 		if [ -f $file ]; then
 			bsdtar -r -f $PKGMK_PACKAGE_DIR/$1 \
-			$file
+			$file || abort_on_build "$1"
 			rm $file
 		fi
 	done
@@ -775,7 +775,7 @@ add_meta_to_archive() {
     MAINT="none"
     CONT="none"
     LICENSE="GPL"
-    bsdtar xf $PKGMK_PACKAGE_DIR/$1
+    bsdtar xf $PKGMK_PACKAGE_DIR/$1 || abort_on_build "$1"
 
     [ ! -z "$description" ] && DESC=$description
     [ ! -z "$packager" ] && PACK=$packager
@@ -878,18 +878,18 @@ add_meta_to_archive() {
 			echo "o$i" >> .META
 		done
 	fi
-	bsdtar -tf $PKGMK_PACKAGE_DIR/$1 > .MTREE
+	bsdtar -tf $PKGMK_PACKAGE_DIR/$1 > .MTREE || abort_on_build "$1"
 
 	rm $PKGMK_PACKAGE_DIR/$1
 
 	for file in .META .MTREE .PRE .POST .PRER .POSTR; do
 		if [ -f $file ]; then
 			bsdtar -r -f $PKGMK_PACKAGE_DIR/$1 \
-			$file
+			$file || abort_on_build "$1"
 		fi
 	done
 
-	bsdtar -r -f $PKGMK_PACKAGE_DIR/$1 *
+	bsdtar -r -f $PKGMK_PACKAGE_DIR/$1 * || abort_on_build "$1"
 
 	cd ..
 	rm -rf $TAR
@@ -1057,6 +1057,7 @@ build_package() {
 			error "No files found in $PKG..."
 			exit ${E_BUILD}
    		fi
+		BUILD_SUCCESSFUL="no"
 		bsdtar -r -f $PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}$version-$release *
 		if [ $? = 0 ]; then
 			BUILD_SUCCESSFUL="yes"
-- 
2.43.0


From 9e45e21390ec307494850dd58bad6b617e4cc05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 084/108] fix: pkgmk fails when it cannot compress a package

The status was ignored, and an interruption left an incomplete compressed package beside
the uncompressed one, which was not replaced later on.
---
 scripts/pkgmk.in | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index f57e29e..cf4ed69 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -895,13 +895,18 @@ add_meta_to_archive() {
 	rm -rf $TAR
 }
 compress_archive() {
+	local COMMAND
 	info "compress $1"
 	case $PKGMK_COMPRESSION_MODE in
-		gz) gzip -9 $1;;
-		bz2) bzip2 -9  $1;;
-		xz)  xz -z $PKGMK_COMPRESSION_OPTS $1;;
-		zst) zstd --rm -q $PKGMK_COMPRESSION_OPTS $1;;
+		gz) COMMAND="gzip -9 -c";;
+		bz2) COMMAND="bzip2 -9 -c";;
+		xz)  COMMAND="xz -z -c $PKGMK_COMPRESSION_OPTS";;
+		zst) COMMAND="zstd -c -q $PKGMK_COMPRESSION_OPTS";;
 	esac
+	# Never an incomplete package under its name
+	$COMMAND $1 > .$1.tmp && touch -r $1 .$1.tmp && \
+	mv -f .$1.tmp $1.$PKGMK_COMPRESSION_MODE && rm $1 || \
+		abort_on_build "Cannot compress $1"
 }
 build_package() {
 	# TODO find a better solution for the hardcoded folders
-- 
2.43.0


From 738543ba4a80b7064ecdc709dace1c569f81b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 085/108] fix: compressed packages are up to date as well

Only the name of the uncompressed package was looked for, so with PKGMK_COMPRESS_PACKAGE
every pkgmk built the port again, and -utd always said it is not up to date.
---
 scripts/pkgmk.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index cf4ed69..cf0d89f 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1545,7 +1545,7 @@ main() {
 
 	if [ "$PKGMK_UP_TO_DATE" = "yes" ]; then
 		TARGET="$PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}$version-$release"
-		if [ ! -f $TARGET ]; then
+		if [ ! -f $TARGET ] && [ ! -f $TARGET.$PKGMK_COMPRESSION_MODE ]; then
 			info "Package '$TARGET' is not up to date."
 			exit 0
 		fi
@@ -1572,7 +1572,7 @@ main() {
 
 	# From here on check the base package not any group
 	TARGET="$PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}$version-$release"
-	if [ -f $TARGET ]; then
+	if [ -f $TARGET ] || [ -f $TARGET.$PKGMK_COMPRESSION_MODE ]; then
 		get_packages_list
 		FOUND=false
 		for TARGET in ${TARGETS[@]}; do
-- 
2.43.0


From ca1e7684eaab8adb16faa42752f45aedcae84ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 086/108] fix: pkgmk replaces the index when it is complete

It was changed in place and errors were ignored: an interruption or a package which cannot
be read left an entry which is cut, and the next entry written was part of it.
---
 scripts/pkgmk.in | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index cf0d89f..bb826f8 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1201,27 +1201,35 @@ build_needed() {
 	echo $RESULT
 }
 update_repo_file() {
+	local REPO="$PKGMK_PACKAGE_DIR/.new$PKGMK_REPO_FILE" FILES="$PKGMK_PACKAGE_DIR/.new$PKGMK_FILES_FILE"
+
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 
 	# the packages of this port, not those of a port of which the name begins the same
-	sed -i "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-	sed -i "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
+	sed "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE > $REPO && \
+	sed "/^@$name\(\..*\)\{0,1\}\.cards-/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE > $FILES || \
+		abort_on_build "Cannot update $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
 
 	for TARGET in $PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}* $PKGMK_PACKAGE_DIR/${name}.*${PKGMK_PACKAGE_EXT}*
 	do
 		[ -f $TARGET ] || continue
-		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
-		$PKGMK_PKGINFO -m $TARGET   >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-		$PKGMK_PKGINFO -l $TARGET   >> $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
-		echo i$(stat -c%s $TARGET)  >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-		echo H$(sha512sum $TARGET | cut -d " " -f1) >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-		echo "" >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-		echo "" >> $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
+		echo "@$(basename $TARGET)" >> $REPO && \
+		echo "@$(basename $TARGET)" >> $FILES && \
+		$PKGMK_PKGINFO -m $TARGET   >> $REPO && \
+		$PKGMK_PKGINFO -l $TARGET   >> $FILES && \
+		echo i$(stat -c%s $TARGET)  >> $REPO && \
+		echo H$(sha512sum $TARGET | cut -d " " -f1) >> $REPO && \
+		echo "" >> $REPO && \
+		echo "" >> $FILES || \
+			abort_on_build "Cannot add $TARGET to $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
 	done
 
-	zstd -19 -q -f $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
+	zstd -19 -q -f $FILES && \
+	mv -f $FILES.zst $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE.zst && \
+	mv -f $FILES $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE && \
+	mv -f $REPO $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE || \
+		abort_on_build "Cannot update $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
 }
 clean_repo_file() {
 	cd $PKGMK_ROOT
-- 
2.43.0


From d3458ceb7971d276afbbe617e644238408f7184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 087/108] fix: pkgmk does not pack the directory it happens to
 be in

When the directory of the files of a package cannot be made or entered, pkgmk went on in the
one it was in, and packed what is there.
---
 scripts/pkgmk.in | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index bb826f8..0b3d83d 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -489,7 +489,7 @@ make_work_dir() {
 
 	cd $PKGMK_ROOT
 	[ "$PKGMK_PACK_ONLY" == "yes" ] ||  rm -rf $PKGMK_WORK_DIR
-	mkdir -p $SRC $PKG
+	mkdir -p $SRC $PKG || abort_on_build "Cannot create $PKGMK_WORK_DIR"
 }
 pack_lib() {
 	local DIR SUBDIR
@@ -720,7 +720,7 @@ build() {
 add_meta_files() {
 	local NAME
 	NAME="$(get_package_name $1)"
-	cd $PKG
+	cd $PKG || abort_on_build "Cannot use $PKG"
 	if [ -f $PKGMK_ROOT/${NAME}.pre-install ]; then
 		cp $PKGMK_ROOT/${NAME}.pre-install .PRE || abort_on_build "$1"
 	fi
@@ -767,8 +767,8 @@ add_meta_to_archive() {
     info  "Adding meta data to Archive $NAME"
 
     TAR="$PKGMK_WORK_DIR/tar"
-    mkdir -p $TAR
-    cd $TAR
+    rm -rf $TAR
+    mkdir -p $TAR && cd $TAR || abort_on_build "Cannot use $TAR"
     DESC="none"
     URL="none"
     PACK="none"
@@ -985,7 +985,7 @@ build_package() {
 		rm -rf $PKGMK_PACKAGE_DIR
 		mkdir -p $PKGMK_PACKAGE_DIR || abort_on_build "Cannot create $PKGMK_PACKAGE_DIR"
 
-		cd $PKG
+		cd $PKG || abort_on_build "Cannot use $PKG"
 		i=0
 		j=0
 
-- 
2.43.0


From caa9ef51847ff83a5bb76d6eb5b459681d48abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 088/108] fix: pkgmk fails when it cannot tell the dependencies
 or the hash of a package

A failing pkginfo, stat or sha512sum was not noticed: a package without its dependencies, an
index with an empty hash, and an exit status of 0.
---
 scripts/pkgmk.in | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 0b3d83d..3857205 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -743,7 +743,7 @@ add_meta_files() {
 }
 add_meta_to_archive() {
     local NAME TAR SPACE DESC URL CONT PACK MAINT GROUP NLS LICENSE G \
-    FOUND
+    FOUND DEPS
     FOUND="no"
     NAME="$(get_package_name $1)"
     GROUP="$(echo $NAME|cut -d "." -f2)"
@@ -810,7 +810,8 @@ add_meta_to_archive() {
 	fi
 
 	if [ "$PKGMK_IGNORE_RUNTIMEDEPS" == "no" ];then
-		for dep in $($PKGMK_PKGINFO --runtimedepfiles $TAR|grep -v ^[A-Z]); do
+		DEPS="$($PKGMK_PKGINFO --runtimedepfiles $TAR)" || abort_on_build "Cannot get the runtime dependencies of $1"
+		for dep in $(echo "$DEPS"|grep -v ^[A-Z]); do
 			echo "R$dep" >> .META
 		done
 		# We don't want any .devel dependencies here
@@ -822,12 +823,13 @@ add_meta_to_archive() {
 					echo "R$rd${PKGMK_BUILDVER}" >> .META
 					continue
 				fi
-				if [ "$($PKGMK_PKGINFO -b $rd)" == "0" ] || [ "$($PKGMK_PKGINFO -b $rd)" == "" ]; then
+				DEPS="$($PKGMK_PKGINFO -b $rd)"
+				if [ "$DEPS" == "0" ] || [ "$DEPS" == "" ]; then
 					error "Runtime dependency $rd not found, cannot continue"
 					clean
 					exit ${E_DEPS};
 				fi
-				echo "R$rd$(pkginfo -b $rd)" >> .META
+				echo "R$rd$DEPS" >> .META
 			done
 		fi
 		if [ ! -z "$G" ]; then
@@ -835,18 +837,20 @@ add_meta_to_archive() {
 			if [ ! -z "$(echo ${!rds})" ]; then
 				info "Adding runtime deps to Archive $NAME"
 				for rd in $(echo ${!rds}); do
-					if [ "$($PKGMK_PKGINFO -b $rd)" == "0" ] || [ "$($PKGMK_PKGINFO -b $rd)" == "" ]; then
+					DEPS="$($PKGMK_PKGINFO -b $rd)"
+					if [ "$DEPS" == "0" ] || [ "$DEPS" == "" ]; then
 						error "Runtime dependency $rd not found, cannot continue"
 						clean
 						exit ${E_DEPS};
 					fi
-					echo "R$rd$($PKGMK_PKGINFO -b $rd)" >> .META
+					echo "R$rd$DEPS" >> .META
 				done
 			fi
 		fi
 	fi
 	if [ "$PKGMK_IGNORE_RUNTIMELIBS" == "no" ];then
-		for lib in $($PKGMK_PKGINFO --runtimelibs $TAR|grep -v ^[A-Z]); do
+		DEPS="$($PKGMK_PKGINFO --runtimelibs $TAR)" || abort_on_build "Cannot get the runtime libraries of $1"
+		for lib in $(echo "$DEPS"|grep -v ^[A-Z]); do
 			echo "l$lib" >> .META
 		done
 	fi
@@ -1201,6 +1205,7 @@ build_needed() {
 	echo $RESULT
 }
 update_repo_file() {
+	local SIZE HASH
 	local REPO="$PKGMK_PACKAGE_DIR/.new$PKGMK_REPO_FILE" FILES="$PKGMK_PACKAGE_DIR/.new$PKGMK_FILES_FILE"
 
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
@@ -1218,8 +1223,10 @@ update_repo_file() {
 		echo "@$(basename $TARGET)" >> $FILES && \
 		$PKGMK_PKGINFO -m $TARGET   >> $REPO && \
 		$PKGMK_PKGINFO -l $TARGET   >> $FILES && \
-		echo i$(stat -c%s $TARGET)  >> $REPO && \
-		echo H$(sha512sum $TARGET | cut -d " " -f1) >> $REPO && \
+		SIZE="$(stat -c%s $TARGET)" && \
+		HASH="$(sha512sum $TARGET)" && \
+		echo "i$SIZE"        >> $REPO && \
+		echo "H${HASH%% *}" >> $REPO && \
 		echo "" >> $REPO && \
 		echo "" >> $FILES || \
 			abort_on_build "Cannot add $TARGET to $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
-- 
2.43.0


From 92969d6860581deff7f82fad27cfa62c33d42952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 089/108] fix: pkgmk removes the old package before its
 subpackages

---
 scripts/pkgmk.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 3857205..c06950c 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1285,8 +1285,10 @@ clean_old_binaries() {
 
 	local TARGET
 	get_packages_list
+	# The package itself goes first: without it the port is not up to date
+	rm -f $PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}*
 	for TARGET in ${TARGETS[@]}; do
-		rm $PKGMK_PACKAGE_DIR/$TARGET
+		rm -f $PKGMK_PACKAGE_DIR/$TARGET
 	done
 }
 interrupted() {
-- 
2.43.0


From 157a1574e105b0abd29ec568b0fd23b6364543ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 090/108] fix: pkgmk fails when it cannot put lib/pkgconfig
 back

---
 scripts/pkgmk.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index c06950c..d4eaa47 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -496,7 +496,7 @@ pack_lib() {
 	for DIR in usr opt/*; do
 		for SUBDIR in lib lib64; do
 			if [ -d $DIR/$SUBDIR/pkgconfig ]; then
-				mv $DIR/$SUBDIR/pkgconfig $PKG
+				mv $DIR/$SUBDIR/pkgconfig $PKG || BUILD_SUCCESSFUL="no"
 			fi
 			if [ -d $DIR/$SUBDIR ]; then
 				bsdtar -r -f \
@@ -506,8 +506,8 @@ pack_lib() {
 				j=1
 			fi
 			if [ -d $PKG/pkgconfig ]; then
-				mkdir $DIR/$SUBDIR
-				mv $PKG/pkgconfig $DIR/$SUBDIR/pkgconfig
+				mkdir $DIR/$SUBDIR && \
+				mv $PKG/pkgconfig $DIR/$SUBDIR/pkgconfig || BUILD_SUCCESSFUL="no"
 			fi
 		done
 	done
-- 
2.43.0


From d7e82b026636580655b5c526abf4bd164968be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 091/108] fix: pkgmk fails when it cannot tell the size of a
 package

---
 scripts/pkgmk.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index d4eaa47..3f88995 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -784,7 +784,8 @@ add_meta_to_archive() {
     [ ! -z "$url" ] && URL=$url
     [ ! -z "$license" ]  && LICENSE=$license
 
-    SPACE="$(du -b $PKGMK_PACKAGE_DIR/$1|sed "s/\t/ /"|cut -d " " -f1)"
+    SPACE="$(du -b $PKGMK_PACKAGE_DIR/$1)" || abort_on_build "Cannot get the size of $1"
+    SPACE="${SPACE%%[[:space:]]*}"
 
 	echo "N$NAME" > .META
 	echo "V$version" >> .META
@@ -815,7 +816,7 @@ add_meta_to_archive() {
 			echo "R$dep" >> .META
 		done
 		# We don't want any .devel dependencies here
-		sed -i '/^R[[a-z0-9]*[-_+]*]*\.devel/d' .META
+		sed -i '/^R[[a-z0-9]*[-_+]*]*\.devel/d' .META || abort_on_build "Cannot drop the devel dependencies of $1"
 		if [ ! -z $run ] && [ "$NAME" == "$name" ]; then
 			info "Adding runtime deps to Archive $NAME"
 			for rd in ${run[@]}; do
-- 
2.43.0


From a61bbc5ab84d48bddc35a662f06f6443eac0de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 092/108] fix: the log of a build has all its output

The output was read only while the child was still running: what a short
recipe printed, or a long one at its end, got lost, on the terminal too.
---
 src/process.cxx | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index fc06c73..472b89e 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -101,20 +101,22 @@ int process::execLog(const int argc, char** argv)
         close(fdpipe[1]);
 
         char readbuf[1024];
-        int bytes, wpval;
-
-        while ((wpval = waitpid(pid, &status, WNOHANG)) == 0) {
-            while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
-                readbuf[bytes] = 0;
-                printf("%s", readbuf);
-                fflush(stdout);
-                fflush(stderr);
-                write(m_fileDescriptorLog, readbuf, bytes);
-            }
+        int bytes;
+
+        // All it prints, also what is still to be read when it has ended
+        while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0
+            || (bytes == -1 && errno == EINTR)) {
+            if (bytes == -1)
+                continue;
+            readbuf[bytes] = 0;
+            printf("%s", readbuf);
+            fflush(stdout);
+            fflush(stderr);
+            write(m_fileDescriptorLog, readbuf, bytes);
         }
         close(fdpipe[0]);
 
-        if (wpval != pid) {
+        if (waitpid(pid, &status, 0) != pid) {
             if (status == 0)
                 status = -1;
         }
@@ -182,20 +184,22 @@ int process::execShellLog(const char* shell)
         close(fdpipe[1]);
 
         char readbuf[1024];
-        int bytes, wpval;
-
-        while ((wpval = waitpid(pid, &status, WNOHANG)) == 0) {
-            while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
-                readbuf[bytes] = 0;
-                printf("%s", readbuf);
-                fflush(stdout);
-                fflush(stderr);
-                write(m_fileDescriptorLog, readbuf, bytes);
-            }
+        int bytes;
+
+        // All it prints, also what is still to be read when it has ended
+        while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0
+            || (bytes == -1 && errno == EINTR)) {
+            if (bytes == -1)
+                continue;
+            readbuf[bytes] = 0;
+            printf("%s", readbuf);
+            fflush(stdout);
+            fflush(stderr);
+            write(m_fileDescriptorLog, readbuf, bytes);
         }
         close(fdpipe[0]);
 
-        if (wpval != pid) {
+        if (waitpid(pid, &status, 0) != pid) {
             if (status == 0)
                 status = -1;
         }
-- 
2.43.0


From 5341eb795d357d772ceadcad00cb36be959592ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 093/108] fix: cards create knows the packages it has installed
 itself

They were not found under their names: a package of the base system which
was installed by the same command was installed once more as a dependency,
and the package which was built was put over the former build of it, whose
files then belonged to nobody.
---
 src/create.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index 384e845..ca9c58d 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -293,6 +293,9 @@ void create::run()
 	takePostInstallScript();
 	postRun();
 
+	// For the packages to come this one is installed
+	if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+		reloadDatabase();
 }
 void create::buildCollection()
 {
-- 
2.43.0


From 20fb0562a88aa5b385d01a9af2f39e09681a21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 094/108] fix: cards create refuses an unknown port before it
 removes anything

The packages which do not belong to the base system were all removed
before the name of the port was looked up.
---
 src/create.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index ca9c58d..f4b41b7 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -26,6 +26,13 @@ create::create(CardsArgumentParser& argParser)
 
 	readRulesFile();
 
+    // Nothing is installed or removed for what can not be built
+    if (!isACollection()
+        && !m_pkgfile.checkPackageNameExist(m_argParser.otherArguments()[0])) {
+        m_actualError = ERROR_ENUM_PACKAGE_NOT_FOUND;
+        treatErrors(m_argParser.otherArguments()[0]);
+    }
+
     if (!m_argParser.isSet(CardsArgumentParser::OPT_DRY)) {
         core();
         chdir(m_portsDir.c_str());
-- 
2.43.0


From 760c1d3c30cac24f1c9e5ec808b0c5acfbedb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 095/108] fix: cards create --dry does not build the port

The option was only considered for a collection: a port was built, and all
that is not of the base system removed for it.
---
 src/create.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index f4b41b7..f9246e2 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -39,6 +39,10 @@ create::create(CardsArgumentParser& argParser)
     }
     if (isACollection())
         buildCollection();
+    else if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
+        std::cout << m_argParser.otherArguments()[0]
+            << " ===> SHOULD BE BUILD !"
+            << std::endl;
     else
         buildBinary(m_argParser.otherArguments()[0]);
 }
-- 
2.43.0


From feece65d5ae319f5f3c9d8e7a7fcabec78a04737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 096/108] fix: cards create does not build a port whose
 dependencies are missing

A dependency without a package was left out silently, and the recipe was
run without it. As the help of the command says, it aborts.
---
 src/create.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index f9246e2..d5db81a 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -580,9 +580,18 @@ void create::buildBinary(std::string packageName)
         write(m_fdlog, "\n", 1);
     }
 
-    base();
     m_list.clear();
     list(packageName);
+    for (auto i : m_list) {
+        if (i == packageName)
+            continue;
+        if (!m_pkgrepo.checkBinaryExist(i)
+            || !checkFileExist(m_pkgrepo.dirName(i) + "/" + m_pkgrepo.fileName(i))) {
+            m_actualError = ERROR_ENUM_PACKAGE_NOT_FOUND;
+            treatErrors(i);
+        }
+    }
+    base();
     installDependencies(packageName);
 
     if (m_pkgfile.getPortDir(packageName).empty()) {
-- 
2.43.0


From ace95b6a1992679d20fc0dd5c3a4387473f99197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:29 +0000
Subject: [PATCH 097/108] fix: a set has no packages of locales, those
 configured come with their package

What pkgmk writes for the package of a locale names the sets of the port
too, so the installation of a set brought the packages of all locales.
Those of a group and, for a collection, those of a locale were left out
already.
---
 src/pkgrepo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 9662a69..c94e361 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -675,7 +675,7 @@ std::set<std::string>& pkgrepo::getListOfPackagesFromSet(const std::string& name
 
     for (auto p : m_listOfPackages) {
         for (auto s : m_listOfPackages[p.first].sets()) {
-            if ((s == name) && (p.second.group() == "")) {
+            if ((s == name) && (p.second.group() == "") && (p.second.nls() == "")) {
                 m_binarySetList.insert(p.first);
                 break;
             }
-- 
2.43.0


From ad0200e4c0edfc804833eca648928760d2aa4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 098/108] fix: the devel packages of names like foo-bar are no
 runtime dependencies either

---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 3f88995..ba8bef6 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -816,7 +816,7 @@ add_meta_to_archive() {
 			echo "R$dep" >> .META
 		done
 		# We don't want any .devel dependencies here
-		sed -i '/^R[[a-z0-9]*[-_+]*]*\.devel/d' .META || abort_on_build "Cannot drop the devel dependencies of $1"
+		sed -i '/^R.*\.devel[0-9]*$/d' .META || abort_on_build "Cannot drop the devel dependencies of $1"
 		if [ ! -z $run ] && [ "$NAME" == "$name" ]; then
 			info "Adding runtime deps to Archive $NAME"
 			for rd in ${run[@]}; do
-- 
2.43.0


From a87350dae05546889306dee92320d808a8f5952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:23 +0000
Subject: [PATCH 099/108] fix: the architecture of the machine is shown without
 any line of configuration

---
 src/conf.cxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 55e7df2..91c8699 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -5,6 +5,7 @@ namespace cards {
 
 conf::conf(const std::string& filename)
 {
+	m_arch = getMachineType();
 	m_filename = filename;
 	parseConfig();
 	m_filename = NUTYX_VERSION_FILE;
@@ -100,10 +101,6 @@ void conf::parseConfig()
 			if (key == "keypath") {
 				m_keypath = val;
 			}
-			m_arch = getMachineType();
-			if ( m_arch== "" ) {
-				return;
-			}
 			if ( (key == "locale") || (key == "group") ) {
 				m_groups.push_back(val);
 			}
-- 
2.43.0


From e57ae9ed74009d6c6175c529e1bab6f2c82d1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 100/108] fix: with --root, cards install and upgrade look at
 the packages of that root

---
 src/cards_argument_parser.cxx | 9 +++++++++
 src/cards_argument_parser.h   | 3 +++
 src/diff.cxx                  | 3 ++-
 src/install.cxx               | 2 +-
 src/pkgdbh.cxx                | 4 ++++
 src/pkgdbh.h                  | 1 +
 src/pkgrepo.cxx               | 3 ++-
 src/pkgrepo.h                 | 2 +-
 src/upgrade.cxx               | 2 +-
 9 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/cards_argument_parser.cxx b/src/cards_argument_parser.cxx
index db46c2f..589af78 100644
--- a/src/cards_argument_parser.cxx
+++ b/src/cards_argument_parser.cxx
@@ -1,6 +1,7 @@
 /* SPDX-License-Identifier: LGPL-2.1-or-later */
 
 #include "cards_argument_parser.h"
+#include "file_utils.h"
 
 ArgParser::APOpt CardsArgumentParser::OPT_DOWNLOAD_ONLY;
 ArgParser::APOpt CardsArgumentParser::OPT_DOWNLOAD_READY;
@@ -298,3 +299,11 @@ As for the generation, a private key is needed, it is used by the packager only.
     addOption(CMD_REPO,OPT_CONFIG_FILE,false);
 
 }
+
+std::string CardsArgumentParser::root() const
+{
+    if (isSet(OPT_ROOT))
+        return getAbsolutePath(getOptionValue(OPT_ROOT)) + "/";
+
+    return "/";
+}
diff --git a/src/cards_argument_parser.h b/src/cards_argument_parser.h
index 8063716..349a430 100644
--- a/src/cards_argument_parser.h
+++ b/src/cards_argument_parser.h
@@ -40,6 +40,9 @@ class CardsArgumentParser : public ArgParser
 
 		static ArgParser::APOpt OPT_NAMES;
 
+		// the root of the system to work on, with a slash at its end
+		std::string root() const;
+
 		std::string getAppIdentification() const
 		{
 			return std::string("cards ")  + PACKAGE_VERSION + "\n";
diff --git a/src/diff.cxx b/src/diff.cxx
index fe6cdf9..3af1ee1 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -8,7 +8,7 @@ diff::diff(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
 	: m_config(configFileName)
 	, m_sync(configFileName,argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.root())
 	, m_argParser(argParser)
 	, m_packagesConflict(0)
 	, m_packagesReplace(0)
@@ -19,6 +19,7 @@ diff::diff(const CardsArgumentParser& argParser,
 	, m_packagesNew(0)
 	, m_packagesOK(0)
 {
+    m_root = m_argParser.root();
     buildDatabase(false);
 
 	std::pair<std::string, time_t> packageNameBuild;
diff --git a/src/install.cxx b/src/install.cxx
index c057be9..db0cb1b 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -6,7 +6,7 @@ namespace cards {
 
 install::install(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
-	: m_pkgrepo(configFileName)
+	: m_pkgrepo(configFileName, argParser.root())
 	, m_argParser(argParser)
 	, m_configFileName(configFileName)
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 008c874..d40c5f9 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -472,6 +472,10 @@ pkgdbh::buildSimpleDependenciesDatabase()
 }
 
  // Populate the database with all details infos
+void pkgdbh::setRoot(const std::string& root)
+{
+	m_root = root;
+}
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 17784f1..3d7f225 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -153,6 +153,7 @@ public:
     virtual void            treatErrors(const std::string& s) const;
 
     void                    print_version() const;
+    void                    setRoot(const std::string& root);
     void                    buildDatabase(const bool& files);
     void                    setDependency();
     void                    resetDependency();
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index c94e361..57b40b2 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -4,10 +4,11 @@
 
 namespace cards {
 
-pkgrepo::pkgrepo(const std::string& fileName)
+pkgrepo::pkgrepo(const std::string& fileName, const std::string& root)
     : m_configFileName(fileName)
     , m_config(fileName)
 {
+    m_dbh.setRoot(root);
     m_dbh.buildDatabase(false);
     parse();
     OpenSSL_add_all_digests();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index fd74d6c..91040df 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -84,7 +84,7 @@ class pkgrepo {
                              directDependencies(const std::string& packageName);
 
 public:
-    pkgrepo(const std::string& fileName);
+    pkgrepo(const std::string& fileName, const std::string& root = "/");
     virtual ~pkgrepo() { ERR_free_strings(); }
 
 	/**
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 57bfeee..b9b147b 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -8,7 +8,7 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	const std::string& configFileName)
 	: m_argParser(argParser)
 	, m_diff(argParser,configFileName)
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.root())
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-- 
2.43.0


From 6633a95be9cf348ca2d26ee6a550142612d5e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:11 +0000
Subject: [PATCH 101/108] fix: an installation keeps its archive when a purge
 at the same time removes it

---
 src/pkgadd.cxx | 27 ++++++++++++++++++++++++---
 src/pkgdbh.cxx |  9 ++++++---
 src/pkgdbh.h   |  3 ++-
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 027c16b..fc88650 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -5,6 +5,10 @@
 
 #include "pkgadd.h"
 
+#include <fcntl.h>
+#include <sys/stat.h>
+#include <unistd.h>
+
 pkgadd::pkgadd()
 	: pkgdbh("pkgadd"),
 	m_upgrade(false),
@@ -71,8 +75,25 @@ void pkgadd::run()
 	if (getcwd(cwd, sizeof(cwd)) == nullptr)
 		strcpy(cwd, "/");
 
-	// Reading the archiving to find a list of files
-	std::pair<std::string, cards::db> package = openArchivePackage(m_packageArchiveName);
+	// Other commands can remove or replace the archive, but not what is opened
+	struct openedArchive {
+		int fd = -1;
+		~openedArchive() { if (fd >= 0) close(fd); }
+	} archiveFile;
+	std::pair<std::string, cards::db> package;
+	struct stat opened, named;
+	do {
+		if (archiveFile.fd >= 0)
+			close(archiveFile.fd);
+		archiveFile.fd = open(m_packageArchiveName.c_str(), O_RDONLY | O_CLOEXEC);
+		if (archiveFile.fd < 0 || fstat(archiveFile.fd, &opened) != 0) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+			treatErrors(m_packageArchiveName);
+		}
+		// Reading the archiving to find a list of files
+		package = openArchivePackage(m_packageArchiveName);
+	} while (stat(m_packageArchiveName.c_str(), &named) == 0 &&
+		(opened.st_ino != named.st_ino || opened.st_dev != named.st_dev));
 
 	readRulesFile();
 
@@ -123,7 +144,7 @@ void pkgadd::run()
 	}
 	// Installation progressInfo of the files on the HD
 	installArchivePackage(m_packageArchiveName,
-		keep_list, non_install_files);
+		keep_list, non_install_files, archiveFile.fd);
 
 	// Add the metadata about the package and its files to the DB
 	moveMetaFilesPackage(package.first,package.second);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index d40c5f9..22db5cd 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1380,7 +1380,8 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 void pkgdbh::installArchivePackage
 	(const std::string& filename,
 	const std::set<std::string>& keep_list,
-	const std::set<std::string>& non_install_list)
+	const std::set<std::string>& non_install_list,
+	int openedFile)
 {
 	struct archive* archive;
 	struct archive_entry* entry;
@@ -1390,9 +1391,11 @@ void pkgdbh::installArchivePackage
 	archive = archive_read_new();
 	INIT_ARCHIVE(archive);
 
-	if (archive_read_open_filename(archive,
+	if ((openedFile < 0 ? archive_read_open_filename(archive,
 	    filename.c_str(),
-	    DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
+	    DEFAULT_BYTES_PER_BLOCK) : archive_read_open_fd(archive,
+	    openedFile,
+	    DEFAULT_BYTES_PER_BLOCK)) != ARCHIVE_OK)
 		{
 			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 			treatErrors(filename);
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 3d7f225..02e550f 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -88,7 +88,8 @@ protected:
     void                    extractAndRunPREfromPackage(const std::string& filename);
     void                    installArchivePackage(const std::string& filename,
                                 const std::set<std::string>& keep_list,
-                                const std::set<std::string>& non_install_files);
+                                const std::set<std::string>& non_install_files,
+                                int openedFile = -1);
 
     /**
      * The folder holding the meta datas is going to be create here
-- 
2.43.0


From ca6cab35f501b830c8317e8907a85b1901ad437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:30 +0000
Subject: [PATCH 102/108] fix: what is downloaded takes its place when it is
 complete

---
 src/dwl.cxx  | 16 +++++++++++++---
 src/sync.cxx |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 82dbd37..ad7bab1 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -94,6 +94,9 @@ void dwl::get()
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
 	if ( m_curlCode != CURLE_OK) {
+		if (m_destinationFile.stream)
+			fclose(m_destinationFile.stream);
+		unlink(m_destinationFile.filename.c_str());
 		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
 		throw std::runtime_error ( "\n\nURL   : " +
 		m_url + "\nFILE  : " +
@@ -104,8 +107,10 @@ void dwl::get()
 		m_destinationFile.stream = fopen(m_destinationFile.filename.c_str(), "w");
 	if (!m_destinationFile.stream)
 		throw std::runtime_error("Cannot open file: " + m_destinationFile.filename);
-	if (fclose(m_destinationFile.stream) != 0)
-		throw std::runtime_error("Cannot write file: " + m_destinationFile.filename);
+	if (fclose(m_destinationFile.stream) != 0) {
+		unlink(m_destinationFile.filename.c_str());
+		throw std::runtime_error("Cannot write file: " + m_downloadFileName);
+	}
 	{
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
@@ -113,13 +118,18 @@ void dwl::get()
 		m_destinationFile.acmodtime.modtime = fT;
 		utime ( m_destinationFile.filename.c_str(),&m_destinationFile.acmodtime);
 	}
+	if (rename(m_destinationFile.filename.c_str(), m_downloadFileName.c_str()) != 0) {
+		unlink(m_destinationFile.filename.c_str());
+		throw std::runtime_error("Cannot write file: " + m_downloadFileName);
+	}
 }
 
 void dwl::initFileToDownload(std::string _url,
 	std::string _file)
 {
   m_destinationFile.url = _url;
-  m_destinationFile.filename = _file;
+  // Others see the previous file or the whole new one, never a part of it
+  m_destinationFile.filename = _file + "." + itos(getpid()) + ".new";
   m_destinationFile.filetime = 0;
   m_destinationFile.stream = nullptr;
   m_downloadProgress.lastruntime = 0;
diff --git a/src/sync.cxx b/src/sync.cxx
index ec97ff6..da637fd 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -67,7 +67,7 @@ void sync::uncompress(const std::string& fileName)
 		throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 
 	// The previous file stays in place until the new one is complete
-	std::string newFile = fileName + ".new";
+	std::string newFile = fileName + "." + itos(getpid()) + ".new";
 	std::ofstream outFile(newFile, std::ios::binary|std::ios::out|std::ios::trunc);
 	if (!outFile)
 		throw std::runtime_error("Cannot open file: " + newFile);
-- 
2.43.0


From 8b1ff6273a2b102df255d80a080214148956400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 103/108] fix: cards list and search read the metadata as it is
 when they open it

---
 src/list.cxx   | 8 ++++++++
 src/search.cxx | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/list.cxx b/src/list.cxx
index 88b8868..d451e33 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -39,6 +39,10 @@ void list::parseSets() {
                 << std::endl;
             continue;
         }
+        // Another command can have replaced the file since
+        struct stat st;
+        if (fstat(fd, &st) == 0)
+            i.sRepo = st.st_size;
         // A collection without packages
         if (i.sRepo == 0) {
             close(fd);
@@ -108,6 +112,10 @@ void list::parse() {
                 << std::endl;
             continue;
         }
+        // Another command can have replaced the file since
+        struct stat st;
+        if (fstat(fd, &st) == 0)
+            i.sRepo = st.st_size;
         // A collection without packages
         if (i.sRepo == 0) {
             close(fd);
diff --git a/src/search.cxx b/src/search.cxx
index c19ea6d..a1265b3 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -30,6 +30,10 @@ void search::parse(){
                 << std::endl;
             continue;
         }
+        // Another command can have replaced the file since
+        struct stat st;
+        if (fstat(fd, &st) == 0)
+            i.sRepo = st.st_size;
         // A collection without packages
         if (i.sRepo == 0) {
             close(fd);
-- 
2.43.0


From cd8c6c2efbfa7a28870336660e504e27646ad156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:48 +0000
Subject: [PATCH 104/108] fix: a signal ignored by the caller stays ignored
 after the lock

The end of the lock set HUP, INT, QUIT and TERM to their default: under
nohup, cards was ended by the hangup between two packages.
---
 src/lock.cxx | 18 +++++++++---------
 src/lock.h   |  1 +
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lock.cxx b/src/lock.cxx
index a519190..65fcb7c 100644
--- a/src/lock.cxx
+++ b/src/lock.cxx
@@ -9,10 +9,10 @@ lock::lock(const std::string& m_root, bool exclusive)
   // Ignore signals
   memset(&m_sa, 0, sizeof(m_sa));
   m_sa.sa_handler = SIG_IGN;
-  sigaction(SIGHUP, &m_sa, NULL);
-  sigaction(SIGINT, &m_sa, NULL);
-  sigaction(SIGQUIT, &m_sa, NULL);
-  sigaction(SIGTERM, &m_sa, NULL);
+  sigaction(SIGHUP, &m_sa, &m_old[0]);
+  sigaction(SIGINT, &m_sa, &m_old[1]);
+  sigaction(SIGQUIT, &m_sa, &m_old[2]);
+  sigaction(SIGTERM, &m_sa, &m_old[3]);
 
 	const std::string dirname = trimFileName(m_root + std::string("/") + PKG_DB_DIR);
 #ifdef DEBUG
@@ -31,11 +31,11 @@ lock::lock(const std::string& m_root, bool exclusive)
 
 lock::~lock()
 {
-	m_sa.sa_handler = SIG_DFL;
-	signal(SIGHUP,SIG_DFL);
-	signal(SIGINT,SIG_DFL);
-	signal(SIGQUIT,SIG_DFL);
-	signal(SIGTERM,SIG_DFL);
+	// As they were: what the caller ignores (nohup) stays ignored
+	sigaction(SIGHUP, &m_old[0], NULL);
+	sigaction(SIGINT, &m_old[1], NULL);
+	sigaction(SIGQUIT, &m_old[2], NULL);
+	sigaction(SIGTERM, &m_old[3], NULL);
 	if (m_dir) {
 		flock(dirfd(m_dir), LOCK_UN);
 		closedir(m_dir);
diff --git a/src/lock.h b/src/lock.h
index 33f438b..d584048 100644
--- a/src/lock.h
+++ b/src/lock.h
@@ -19,6 +19,7 @@ public:
 private:
 	DIR* m_dir;
 	struct sigaction m_sa;
+	struct sigaction m_old[4];
 };
 
 } // end of cards namespace
-- 
2.43.0


From 6f0a0cd04217db3b71476193907722d81a180e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:48 +0000
Subject: [PATCH 105/108] fix: the end of the reader of its output does not end
 an operation half way

pkgadd -p ... | head was ended by SIGPIPE among the files of the package.
---
 src/lock.cxx | 7 +++++++
 src/lock.h   | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lock.cxx b/src/lock.cxx
index 65fcb7c..f64bb2c 100644
--- a/src/lock.cxx
+++ b/src/lock.cxx
@@ -14,6 +14,12 @@ lock::lock(const std::string& m_root, bool exclusive)
   sigaction(SIGQUIT, &m_sa, &m_old[2]);
   sigaction(SIGTERM, &m_sa, &m_old[3]);
 
+  // Nor does a reader of the output that goes away end it half way. A handler,
+  // as it is not passed on to the scripts
+  m_sa.sa_handler = [](int) {};
+  m_sa.sa_flags = SA_RESTART;
+  sigaction(SIGPIPE, &m_sa, &m_old[4]);
+
 	const std::string dirname = trimFileName(m_root + std::string("/") + PKG_DB_DIR);
 #ifdef DEBUG
 	std::cerr << "Lock the database " << dirname << std::endl;
@@ -36,6 +42,7 @@ lock::~lock()
 	sigaction(SIGINT, &m_old[1], NULL);
 	sigaction(SIGQUIT, &m_old[2], NULL);
 	sigaction(SIGTERM, &m_old[3], NULL);
+	sigaction(SIGPIPE, &m_old[4], NULL);
 	if (m_dir) {
 		flock(dirfd(m_dir), LOCK_UN);
 		closedir(m_dir);
diff --git a/src/lock.h b/src/lock.h
index d584048..e930bbc 100644
--- a/src/lock.h
+++ b/src/lock.h
@@ -19,7 +19,7 @@ public:
 private:
 	DIR* m_dir;
 	struct sigaction m_sa;
-	struct sigaction m_old[4];
+	struct sigaction m_old[5];
 };
 
 } // end of cards namespace
-- 
2.43.0


From 30f8d36f61c080cd4a617b200f0d3ae44aeda454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:47 +0000
Subject: [PATCH 106/108] fix: cards create holds the lock while it removes and
 installs packages

The lock was the only statement of an if: released before anything was done.
---
 src/create.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index d5db81a..75fab9a 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -121,8 +121,9 @@ void create::base()
         }
         found = false;
     }
+    std::unique_ptr<cards::lock> Lock;
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-        cards::lock Lock(m_root, true);
+        Lock.reset(new cards::lock(m_root, true));
     for (auto i : list) {
         m_packageName = i;
 
@@ -275,22 +276,22 @@ void create::run()
 		treatErrors(package.first);
 	}
 
+	// Nobody else works on the database, from the removal of the old package on
+	std::unique_ptr<cards::lock> Lock;
+	if (m_upgrade || !m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+		Lock.reset(new cards::lock(m_root, true));
+
 	std::set<std::string> keep_list;
 	if (m_upgrade) {
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 	}
 
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-	    cards::lock Lock(m_root, true);
-
-
     installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
@@ -302,6 +303,7 @@ void create::run()
         m_listOfPackages[package.first] = package.second;
     }
 	takePostInstallScript();
+	Lock.reset();
 	postRun();
 
 	// For the packages to come this one is installed
-- 
2.43.0


From 3307decc919b0ae86b96046f99549c2ae7bc5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:04 +0000
Subject: [PATCH 107/108] fix: the size of archives of 2 GB and more

cards info -b, diff and upgrade took it for an int, cards base wrote it
modulo 4 GB.
---
 src/pkgrepo.cxx | 4 ++--
 src/pkgrepo.h   | 4 ++--
 src/repo.cxx    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 57b40b2..b9edeec 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -490,7 +490,7 @@ void pkgrepo::parse()
                     info.signature(p.substr(1));
                     continue;
                 case SIZE:
-                    info.size(atoi(p.substr(1).c_str()));
+                    info.size(strtoul(p.substr(1).c_str(), nullptr, 10));
                     continue;
                 }
             }
@@ -719,7 +719,7 @@ unsigned long pkgrepo::getSpace(const std::string& name)
     parse();
     return m_listOfPackages[name].space();
 }
-unsigned int pkgrepo::getSize(const std::string& name)
+unsigned long pkgrepo::getSize(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].size();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 91040df..f3b43a6 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -25,7 +25,7 @@ struct m_package {
 	std::string available_version;
 	unsigned long installed_space;
 	unsigned long available_space;
-	unsigned int available_size;
+	unsigned long available_size;
 	StatusEnumUpgrade status;
 
 };
@@ -174,7 +174,7 @@ public:
     std::string&             fileHash(const std::string& name);
     std::string&             getBinaryPackageInfo(const std::string& name);
     unsigned long            getSpace(const std::string& name);
-    unsigned int             getSize(const std::string& name);
+    unsigned long            getSize(const std::string& name);
     std::string&             version(const std::string& name);
     unsigned short int       release(const std::string& name);
 
diff --git a/src/repo.cxx b/src/repo.cxx
index f65e203..5f78e76 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -110,7 +110,7 @@ repo::repo(const CardsArgumentParser& argParser,
                 fwrite(file.c_str(),1, file.size(),mp);
 
                 file = SIZE
-                    + itos(buf.st_size)
+                    + std::to_string(buf.st_size)
                     + "\n";
                 fwrite(file.c_str(),1, file.size(),mp);
 
-- 
2.43.0


From d25cf7ed73eb30ecab387620e03bcaf791948c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:18 +0000
Subject: [PATCH 108/108] fix: a record of the database that is a link is not
 followed out of it

---
 src/pkgdbh.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 22db5cd..ee0484b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -988,7 +988,10 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	const std::string packagedir = m_root + PKG_DB_DIR ;
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
-	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
+	// Of a record that is a link to another place only the link is removed
+	struct stat buf;
+	bool isLink = lstat(packagenamedir.c_str(), &buf) == 0 && S_ISLNK(buf.st_mode);
+	if (!isLink && findDir(metaFilesList, packagenamedir) != 0) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 		treatErrors(packagenamedir);
 	}
@@ -1306,6 +1309,13 @@ pkgdbh::openArchivePackage(const std::string& filename)
 		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
 		treatErrors(basename);
 	}
+	// A record is a directory of the database, not a link to another place
+	const std::string packagenamedir = m_root + PKG_DB_DIR + result.first;
+	struct stat buf;
+	if (lstat(packagenamedir.c_str(), &buf) == 0 && S_ISLNK(buf.st_mode)) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_CREATE_FILE;
+		treatErrors(packagenamedir);
+	}
 	std::set<std::string> fileList =  packageArchive.setofFiles();
 	for (auto i :fileList) {
 		if (isOutside(i)) {
-- 
2.43.0

