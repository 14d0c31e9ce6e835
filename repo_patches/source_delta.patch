From e164f373257c7af158558a23c59eef2a6f9a64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 01/51] fix: initialise the dependency mark of the database
 handler

m_dependency was never initialised, so whether a package installed on
request was recorded as an automatic dependency depended on the content
of the heap.
---
 src/pkgdbh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..61f1123 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -9,6 +9,7 @@ using __gnu_cxx::stdio_filebuf;
 
 pkgdbh::pkgdbh(const std::string& name)
 	: m_utilName(name)
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
@@ -18,6 +19,7 @@ pkgdbh::pkgdbh(const std::string& name)
 }
 pkgdbh::pkgdbh()
 	: m_utilName("pkgdbh")
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
-- 
2.43.0


From 329afe265a2ca200dcaa16a8a229f3e5d5199ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 02/51] fix: do not re-create the record of a removed package
 when its database entry is deleted

---
 src/pkgdbh.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 61f1123..8cc72f7 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -911,7 +911,6 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
-- 
2.43.0


From caa648e8016f883e5448f3285bccd48b3dd7b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 03/51] fix: resolve aliases before the removal guards and
 check every guard before removing anything

---
 src/remove.cxx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..3585eb9 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -35,9 +35,16 @@ remove::remove(const std::string& commandName,
 			treatErrors(i);
 		}
 
+		// if it's an alias get the real name
+		std::string name = i;
+		std::map<std::string,std::string>::iterator alias = m_listOfAlias.find(i);
+		if ((m_listOfPackages.find(i) == m_listOfPackages.end()) &&
+			(alias != m_listOfAlias.end()))
+			name = alias->second;
+
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if (( i == k.first) || ( name == k.first)) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -61,11 +68,9 @@ remove::remove(const std::string& commandName,
 				}
 			}
 		}
-		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
-			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+		if (m_listOfPackages.find(name) != m_listOfPackages.end()) {
+			PackageToRemove.first = name;
+			PackageToRemove.second = getCollection(name);
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
@@ -83,15 +88,16 @@ remove::remove(const std::string& commandName,
 		if (checkPackageNameExist(i.first))
 			listOfPackagesToRemove.insert(i);
 	}
+	// Nothing is removed if one of them cannot be
 	for ( auto i : listOfPackagesToRemove ) {
-		if (i.first.size() == 0 )
-			continue;
-		m_packageName = i.first;
 		if ((i.second == "base") &&
 			(!m_argParser.isSet(CardsArgumentParser::OPT_FORCE))) {
 				m_actualError = cards::ERROR_ENUM_PACKAGE_IN_BASESYSTEM;
 				treatErrors(i.first);
 		}
+	}
+	for ( auto i : listOfPackagesToRemove ) {
+		m_packageName = i.first;
 		run();
 		std::string name = "(" +  m_packageCollection + ") ";
 		name += i.first;
-- 
2.43.0


From de74b7e8e82a1963df9237354cfacdfcf9fae98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 04/51] fix: report a script killed by a signal or not started
 as failed

---
 src/process.cxx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..90dcd4d 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -5,6 +5,16 @@
 
 #include "process.h"
 
+// Non zero if the command could not be started or waited for (-1),
+// exited with an error or was killed by a signal
+static int exitCode(int status)
+{
+    if (status == -1)
+        return status;
+    if (WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+    return WEXITSTATUS(status);
+}
 process::process()
 {
 }
@@ -110,7 +120,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +142,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::executeShell()
@@ -191,7 +201,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +223,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
-- 
2.43.0


From 4309218640b2b741219d6c264c6a7c08bdadad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 05/51] fix: hold the database lock over the whole installation

---
 src/pkgadd.cxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..faaaf80 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -89,11 +89,14 @@ void pkgadd::run()
 	if (m_runPrePost)
 		preRun();
 
+	{
+	// Another process has to see none or all of the changes below
+	cards::lock Lock(m_root, true);
+
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
 		package.second);
 	if (!conflicting_files.empty()) {
 		if (m_force) {
-			cards::lock Lock(m_root, true);
 			std::set<std::string> keep_list;
 			// Don't remove files matching the rules in configuration
 			if (m_upgrade)
@@ -115,23 +118,20 @@ void pkgadd::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 	}
-	{
-		cards::lock Lock(m_root, true);
-		// Installation progressInfo of the files on the HD
-		installArchivePackage(m_packageArchiveName,
-			keep_list, non_install_files);
+	// Installation progressInfo of the files on the HD
+	installArchivePackage(m_packageArchiveName,
+		keep_list, non_install_files);
 
-		// Add the metadata about the package to the DB
-		moveMetaFilesPackage(package.first,package.second);
+	// Add the metadata about the package to the DB
+	moveMetaFilesPackage(package.first,package.second);
 
-		// Add the info about the files to the DB
-		addPackageFilesRefsToDB(package.first, package.second);
+	// Add the info about the files to the DB
+	addPackageFilesRefsToDB(package.first, package.second);
 	}
 	postRun();
 }
-- 
2.43.0


From 60b71ca29d4e599314a4e150a13f7a29bca41d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 06/51] fix: clean up the package metadata below the
 alternative root instead of the real one

---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..641275e 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		remove ( (basedir + "/.INFO").c_str() );
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		remove ( (basedir + "/.META").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		remove ( (basedir + "/.PRE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		remove ( (basedir + "/.POST").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		remove ( (basedir + "/.MTREE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		remove ( (basedir + "/.README").c_str() );
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 8cc72f7..dedfbce 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -664,7 +664,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	remove ((m_root + "/.MTREE").c_str());
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From c1b5175fe1ee5d7481e2a0df03a3755a4f50db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 07/51] fix: decide installs and upgrades of an alternative
 root from its own database

---
 src/diff.cxx    | 6 +++++-
 src/install.cxx | 2 +-
 src/pkgdbh.cxx  | 4 ++++
 src/pkgdbh.h    | 1 +
 src/pkgrepo.cxx | 3 ++-
 src/pkgrepo.h   | 2 +-
 src/upgrade.cxx | 5 +++--
 7 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 3aaab25..4b770da 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -8,7 +8,7 @@ diff::diff(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
 	: m_config(configFileName)
 	, m_sync(configFileName,argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ? argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_argParser(argParser)
 	, m_packagesConflict(0)
 	, m_packagesReplace(0)
@@ -19,6 +19,10 @@ diff::diff(const CardsArgumentParser& argParser,
 	, m_packagesNew(0)
 	, m_packagesOK(0)
 {
+	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
+
     buildDatabase(false);
 
 	m_package packageNameToDeal;
diff --git a/src/install.cxx b/src/install.cxx
index abb288d..8624baf 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -6,7 +6,7 @@ namespace cards {
 
 install::install(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
-	: m_pkgrepo(configFileName)
+	: m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ? argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_argParser(argParser)
 	, m_configFileName(configFileName)
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index dedfbce..60312a0 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -838,6 +838,10 @@ bool pkgdbh::checkDependency(const std::string& name)
 		return m_listOfPackages[name].dependency();
 	return false;
 }
+void pkgdbh::root(const std::string& root)
+{
+	m_root = root;
+}
 void pkgdbh::setDependency()
 {
 	m_dependency=true;
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 28fd85e..3d616da 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -141,6 +141,7 @@ public:
 
     void                    print_version() const;
     void                    buildDatabase(const bool& files);
+    void                    root(const std::string& root);
     void                    setDependency();
     void                    resetDependency();
 
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..c2f45b4 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -4,10 +4,11 @@
 
 namespace cards {
 
-pkgrepo::pkgrepo(const std::string& fileName)
+pkgrepo::pkgrepo(const std::string& fileName, const std::string& root)
     : m_configFileName(fileName)
     , m_config(fileName)
 {
+    m_dbh.root(root);
     m_dbh.buildDatabase(false);
     parse();
     OpenSSL_add_all_digests();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 82be574..149d578 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -71,7 +71,7 @@ class pkgrepo {
     void                     errors();
 
 public:
-    pkgrepo(const std::string& fileName);
+    pkgrepo(const std::string& fileName, const std::string& root = "/");
     virtual ~pkgrepo() { ERR_free_strings(); }
 
 	/**
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..d220459 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -8,11 +8,12 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	const std::string& configFileName)
 	: m_argParser(argParser)
 	, m_diff(argParser,configFileName)
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ? argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From a2c4ec5e779d915c332fdfb260892c1b00d8e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 08/51] fix: resolve packages that need each other instead of
 looping forever

---
 src/pkgrepo.cxx | 78 +++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index c2f45b4..2a42c5b 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -130,9 +130,15 @@ void pkgrepo::generateDependencies()
 {
     std::string packageNameHash, packageName, packageFileName;
     std::pair<std::string, time_t> PackageTime;
-    std::vector<std::pair<std::string, time_t>> dependenciesWeMustAdd, depencenciestoSort;
-    std::vector<std::pair<std::string, time_t>>::iterator vit;
-    std::set<std::pair<std::string, time_t>>::iterator sit;
+    std::vector<std::pair<std::string, time_t>> dependenciesWeMustAdd;
+    std::set<std::string> expanded, sorted;
+
+    // A package requested after it was found as a dependency stays requested
+    for (auto& i : m_dependenciesList) {
+        sorted.insert(i.first);
+        if (i.first == m_packageName)
+            i.second = 0;
+    }
 
     PackageTime.first = m_packageName;
     PackageTime.second = 0;
@@ -142,12 +148,20 @@ void pkgrepo::generateDependencies()
 
     // Main while loop
     while (!dependenciesWeMustAdd.empty()) {
-        vit = dependenciesWeMustAdd.begin();
-        packageName = vit->first;
-        PackageTime = *vit;
-
-        // Erase the current treated packageName
-        dependenciesWeMustAdd.erase(vit);
+        PackageTime = dependenciesWeMustAdd.back();
+        packageName = PackageTime.first;
+
+        // The dependencies of the package are all treated (or are
+        // waiting for it, if they need each other): it's its turn
+        if (!expanded.insert(packageName).second) {
+            dependenciesWeMustAdd.pop_back();
+
+            // If the package is not yet installed or not uptodate
+            if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)
+                    && sorted.insert(packageName).second)
+                m_dependenciesList.push_back(PackageTime);
+            continue;
+        }
 
         std::set<std::pair<std::string, time_t>> directDependencies;
         if (m_listOfRepoPackages.find(packageName) != m_listOfRepoPackages.end()) {
@@ -192,49 +206,11 @@ void pkgrepo::generateDependencies()
             directDependencies = getPackageDependencies(packageFileName);
         }
 
-        // If the package is not yet installed or not uptodate
-        if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)) {
-            // checkPackageNameBuildDateSame is no then add it
-            depencenciestoSort.push_back(PackageTime);
-        }
-
-        // else checkPackageNameBuildDateSame is yes
-
-        for (auto sit : directDependencies) {
-            if (sit.first == PackageTime.first)
-                continue;
-            for (vit = dependenciesWeMustAdd.begin(); vit != dependenciesWeMustAdd.end(); ++vit) {
-                if (sit == *vit) {
-                    dependenciesWeMustAdd.erase(vit);
-                    break;
-                }
-            }
-        }
-        for (sit = directDependencies.begin(); sit != directDependencies.end(); sit++) {
-            if (PackageTime.first != sit->first) {
-                if (!m_dbh.checkPackageNameBuildDateSame(*sit))
-                    dependenciesWeMustAdd.push_back(*sit);
-            }
-        }
-    }
-
-    // Let's revert the order of dependencies
-    // We need the last founds (lower level) first
-    bool found = false;
-    for (std::vector<std::pair<std::string, time_t>>::reverse_iterator vrit = depencenciestoSort.rbegin();
-         vrit != depencenciestoSort.rend();
-         ++vrit) {
-        found = false;
-        for (auto i : m_dependenciesList) {
-            if (i.first == vrit->first) {
-                found = true;
-                break;
-            }
-        }
-        if (!found) {
-            m_dependenciesList.push_back(*vrit);
+        for (auto i : directDependencies) {
+            if (!m_dbh.checkPackageNameBuildDateSame(i)
+                    && expanded.find(i.first) == expanded.end())
+                dependenciesWeMustAdd.push_back(i);
         }
-        // else no deps founds
     }
 }
 void pkgrepo::downloadPackageFileName(const std::string& packageName)
-- 
2.43.0


From 99c6b0d7f59ba8e58cdf416c6c1ef816cd7babcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 09/51] fix: keep the manual mark of a package upgraded as a
 dependency

---
 src/install.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/install.cxx b/src/install.cxx
index 8624baf..184344f 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -82,7 +82,7 @@ install::install(const CardsArgumentParser& argParser,
 		} else {
 			m_upgrade = false;
 		}
-		if (i.second > 0)
+		if (i.second > 0 && !m_upgrade)
 			setDependency();
 		p += "("
 			+ packageArchive.collection()
-- 
2.43.0


From 1d82d37732cba3d17cb32faaeeb7c4ec4758728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 10/51] fix: initialise the numbers of packages, ports and
 queries

---
 src/cache.cxx   | 2 ++
 src/db.cxx      | 3 +++
 src/pkg.cxx     | 2 ++
 src/pkgfile.h   | 3 ++-
 src/pkginfo.cxx | 2 ++
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cache.cxx b/src/cache.cxx
index 081c2ee..87fa7ff 100644
--- a/src/cache.cxx
+++ b/src/cache.cxx
@@ -5,6 +5,8 @@
 namespace cards {
 
 cache::cache()
+	: m_size(0)
+	, m_installed(false)
 {
 	m_status = STATUS_ENUM_UNKNOWN;
 }
diff --git a/src/db.cxx b/src/db.cxx
index 899f2fe..8799ed5 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -5,6 +5,9 @@
 namespace cards {
 
 db::db()
+	: m_space(0)
+	, m_install(0)
+	, m_dependency(false)
 {
 	//nothing todo ATM
 }
diff --git a/src/pkg.cxx b/src/pkg.cxx
index 2c41e0b..c29fc23 100644
--- a/src/pkg.cxx
+++ b/src/pkg.cxx
@@ -4,6 +4,8 @@
 
 namespace cards {
 pkg::pkg()
+	: m_release(0)
+	, m_build(0)
 {
 // nothing to do ATM
 }
diff --git a/src/pkgfile.h b/src/pkgfile.h
index 9db482b..4a57ef6 100644
--- a/src/pkgfile.h
+++ b/src/pkgfile.h
@@ -42,7 +42,8 @@ class port : public pkg {
 
 public:
     port()
-        : m_level(0)
+        : m_index(0)
+        , m_level(0)
         , m_decount(0)
         , m_decrement(0)
     {
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index d71f7f0..36d2c94 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -26,10 +26,12 @@ pkginfo::pkginfo(const std::string& commandName)
 pkginfo::pkginfo()
     : pkgdbh("pkginfo")
     , m_runtimedependencies_mode(0)
+    , m_runtimelibs_mode(0)
     , m_footprint_mode(0)
     , m_archiveinfo(0)
     , m_metainfo(0)
     , m_installed_mode(0)
+    , m_number_mode(0)
     , m_list_mode(0)
     , m_owner_mode(0)
     , m_details_mode(0)
-- 
2.43.0


From 4fd50620f293251a07ea192bcddad9b9ffeb1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 11/51] fix: mark the new dependencies an upgrade installs as
 automatic

---
 src/upgrade.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d220459..55a92b0 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -144,6 +144,8 @@ void upgrade::upgradePackages()
 			m_upgrade=true;
 		else
 			m_upgrade=false;
+		if (i.second > 0 && !m_upgrade)
+			setDependency();
 
 		run();
 		std::string p = i.first
-- 
2.43.0


From e7e9a4bffbc5e52d209d98df3a43a67141e80f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 12/51] fix: count the space of the packages that will be
 removed as obsolete

---
 src/diff.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diff.cxx b/src/diff.cxx
index 4b770da..40e9451 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -63,6 +63,7 @@ diff::diff(const CardsArgumentParser& argParser,
 			if(i.second.dependency()) {
 				++m_packagesObsolet;
 				packageNameToDeal.status = STATUS_ENUM_UPG_OBSOLET;
+				packageNameToDeal.installed_space = i.second.space();
 			} else {
 				++m_packagesUnMaint;
 				packageNameToDeal.status = STATUS_ENUM_UPG_UNMAINT;
-- 
2.43.0


From 180ee52549d68e2f9c89e80f75a651cb3f8c0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 13/51] fix: read the database when an interrupted command left
 a package without its file list

---
 src/pkgdbh.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 60312a0..467243b 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -619,8 +619,9 @@ void pkgdbh::buildDatabase(const bool& files)
 		info.categories(categories);
 		info.dependencies(dependencies);
 
-		if (files) {
-			const std::string filelist = m_root + PKG_DB_DIR + i + PKG_FILES;
+		const std::string filelist = m_root + PKG_DB_DIR + i + PKG_FILES;
+		// An interrupted command can leave a package without its list
+		if (files && checkFileExist(filelist)) {
 			int fd = open(filelist.c_str(), O_RDONLY);
 			if (fd == -1) {
 				m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
-- 
2.43.0


From be710e6b6e8e18ed000c1b01084ef976c57f7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 14/51] fix: record the metadata of a package after its file
 list, so that an interrupted installation is not taken for a complete one

---
 src/pkgadd.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index faaaf80..6936c6d 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -127,11 +127,16 @@ void pkgadd::run()
 	installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
-	// Add the metadata about the package to the DB
-	moveMetaFilesPackage(package.first,package.second);
-
 	// Add the info about the files to the DB
-	addPackageFilesRefsToDB(package.first, package.second);
+	cards::db info = package.second;
+	for (auto i : package.second.files)
+		if (i[0] == '.')
+			info.files.erase(i);
+	addPackageFilesRefsToDB(package.first, info);
+
+	// Add the metadata about the package to the DB. They come last,
+	// with them the package counts as installed and up to date
+	moveMetaFilesPackage(package.first,package.second);
 	}
 	postRun();
 }
-- 
2.43.0


From ad58c8815a8b5ec70dae9fd8d71951fd297287e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 15/51] fix: verify (and download) the packages of a collection
 which has its own url

---
 src/pkgrepo.cxx | 13 ++++++++++++-
 src/pkgrepo.h   |  5 +++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 2a42c5b..85f2fba 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -185,7 +185,7 @@ void pkgrepo::generateDependencies()
             // Let's see if we need to download it
             // if the binary archive is not yet downloaded
             // Make no sense to download if no url exist
-            if (m_config.url().size() > 0) {
+            if (hasUrl(packageName)) {
                 if (!checkFileExist(packageFileName))
                     downloadPackageFileName(packageName);
                 // m_packageFileNameHash contains
@@ -213,6 +213,17 @@ void pkgrepo::generateDependencies()
         }
     }
 }
+bool pkgrepo::hasUrl(const std::string& packageName)
+{
+    // The url can be a global one or only defined for the collection
+    for (const auto& i : m_config.dirUrl()) {
+        if (i.depot + "/" + i.collection == m_listOfPackages[packageName].dirName()
+                && !i.url.empty())
+            return true;
+    }
+
+    return false;
+}
 void pkgrepo::downloadPackageFileName(const std::string& packageName)
 {
     cards::dwl archive(m_listOfPackages[packageName].origin()
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 149d578..88f6ed4 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -69,6 +69,11 @@ class pkgrepo {
 	 */
     void                     parse(const std::string& packageNameFiles);
     void                     errors();
+	/**
+	 * Return true if the package comes from a remote server
+	 *
+	 */
+    bool                     hasUrl(const std::string& packageName);
 
 public:
     pkgrepo(const std::string& fileName, const std::string& root = "/");
-- 
2.43.0


From e426a7acdfa04cf50301552bac7a0fbf239766c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 16/51] fix: a signature which is not an even number of hex
 digits is wrong, not a crash

---
 src/pkgrepo.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 85f2fba..7c57dd1 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -971,6 +971,12 @@ bool pkgrepo::checkSign(const std::string& name)
     }
 
     std::string signature = m_listOfPackages[name].signature();
+    if (signature.length() % 2 != 0
+            || signature.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+        EVP_MD_CTX_free(mdctx);
+        EVP_PKEY_free(key);
+        return false;
+    }
     std::vector<unsigned char> sigBytes(signature.length() / 2);
     for (size_t i = 0; i < signature.length(); i += 2)
         sigBytes[i / 2] = static_cast<unsigned char>(std::stoi(signature.substr(i, 2), nullptr, 16));
-- 
2.43.0


From f886a89c90783cfcb5ba728cda7f56069d5ad5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 17/51] fix: read every line of a file completely: without a
 final newline, empty or longer than the buffer

---
 src/file_utils.cxx | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 641275e..7235e9c 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -342,6 +342,24 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 	if (dir) closedir(dir);
 	return res ? res : errno ? WALK_BADIO : WALK_OK;
 }
+// A line of any length, with or without a newline at the end of the file
+static bool readLine(std::string& line, FILE* fp)
+{
+	char* input = nullptr;
+	size_t size = 0;
+	ssize_t length = getline(&input, &size, fp);
+
+	if (length > 0) {
+		if (input[length - 1] == '\n')
+			length--;
+		line.assign(input, length);
+		free(input);
+		return true;
+	}
+	free(input);
+	return false;
+}
+
 int parseFile(std::set<std::string>& fileContent, const char* fileName)
 {
 	FILE* fp = fopen(fileName, "r");
@@ -349,14 +367,13 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 	if (!fp)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.insert(input);
-  }
-  fclose(fp);
-  return 0;
+	while (readLine(line, fp))
+		fileContent.insert(line);
+
+	fclose(fp);
+	return 0;
 }
 
 int parseFile(std::vector<std::string>& fileContent, const char* fileName)
@@ -366,12 +383,11 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 	if (!fp)
 		return -1;
 
-	char input[BUFSIZ];
+	std::string line;
+
+	while (readLine(line, fp))
+		fileContent.push_back(line);
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
-		fileContent.push_back(input);
-	}
 	fclose(fp);
 	return 0;
 }
-- 
2.43.0


From c37a0a1239caa0204a98611329ee8d33c8ef244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 18/51] fix: malformed metadata (empty file, short dependency,
 release without number) no longer corrupts memory or ends the command

---
 src/archive.cxx | 12 ++++++------
 src/pkgdbh.cxx  |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..505e603 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -93,11 +93,10 @@ void archive::extractFileContent
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
-            archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
+            std::string fC(entry_size, '\0');
+            ssize_t length = archive_read_data(ar, &fC[0], entry_size);
+            fC.resize(length > 0 ? length : 0);
             list = parseDelimitedVectorList(fC,'\n');
-            free(fC);
             break;
         }
     }
@@ -108,7 +107,8 @@ void archive::getRunTimeDependenciesEpoch()
 {
     std::pair<std::string, time_t> NameEpoch;
     for (auto dependency : m_contentMeta) {
-        if (dependency[0] == 'R') {
+        // at least one character of name before the 10 of the build date
+        if (dependency[0] == 'R' && dependency.size() > 11) {
             NameEpoch.first = dependency.substr(1, dependency.size() - 11);
             NameEpoch.second = strtoul((dependency.substr(dependency.size() - 10)).c_str(), NULL, 0);
             m_rtDependenciesEpochList.insert(NameEpoch);
@@ -250,7 +250,7 @@ int archive::release()
 {
     for (auto s : m_contentMeta) {
         if (s[0] == RELEASE) {
-            return stoi(s.substr(1));
+            return atoi(s.substr(1).c_str());
             break;
         }
     }
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 467243b..6c695fb 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -457,7 +457,7 @@ pkgdbh::buildSimpleDependenciesDatabase()
 			std::set<std::string> fileContent;
 			parseFile(fileContent,metaFile.c_str());
 		for (auto s : fileContent) {
-			if (s[0] == RUNTIME_DEPENDENCY) {
+			if (s[0] == RUNTIME_DEPENDENCY && s.size() > 11) {
 				std::string dependency = s.substr(1,s.size()-11);
 				packageWithDeps.second.insert(dependency);
 			}
@@ -564,6 +564,9 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case RUNTIME_DEPENDENCY:
+					// without a name or a complete build date
+					if (s.size() <= 11)
+						continue;
 					std::pair<std::string,time_t > NameEpoch;
 					NameEpoch.first=s.substr(1,s.size()-11);
 					NameEpoch.second=strtoul((s.substr(s.size()-10)).c_str(),nullptr,0);
-- 
2.43.0


From 89ffc96d61111079f09c12cac287be04b9776d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 19/51] fix: read the records of a repository independently of
 each other

---
 src/pkgrepo.cxx | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 7c57dd1..5fe9c68 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -379,9 +379,8 @@ void pkgrepo::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cache info;
-
     for (auto i : m_config.dirUrl()) {
+        cache info;
         info.dirName(i.depot + "/" + i.collection);
         std::string repoFile = info.dirName()
             + PKG_REPO_META;
@@ -394,6 +393,7 @@ void pkgrepo::parse()
             + m_config.version()
             + "/"
             + i.collection);
+        const cache emptyInfo(info);
         std::vector<std::string> repoFileContent;
 
         if (parseFile(repoFileContent, repoFile.c_str()) != 0) {
@@ -418,10 +418,16 @@ void pkgrepo::parse()
             if (p[0] == '@') {
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
+                    // Nothing of the previous package is kept
+                    info = emptyInfo;
+                    pkgName.clear();
+                    pkgAlias.clear();
+                    pkgSet.clear();
+                    pkgCategories.clear();
+                    pkgDependencies.clear();
+                    pkgConflicts.clear();
+                    pkgLibs.clear();
                     info.fileName(p.substr(1));
-                    info.group("");
-                    info.nls("");
-                    info.baseName("");
                     pkgFound = true;
                 }
                 continue;
@@ -435,7 +441,7 @@ void pkgrepo::parse()
                     info.version(p.substr(1));
                     continue;
                 case RELEASE:
-                    info.release(stoi(p.substr(1)));
+                    info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
                     info.space(atoi(p.substr(1).c_str()));
@@ -480,7 +486,7 @@ void pkgrepo::parse()
                     continue;
                 case RUNTIME_DEPENDENCY:
                     dependency.first = pkgName;
-                    if (p.size() > 14) {
+                    if (p.size() > 11) {
                         dependency.first = p.substr(1, p.size() - 11);
                         dependency.second = strtoul(p.substr((p.size()) - 10).c_str(), nullptr, 0);
                         pkgDependencies.insert(dependency);
@@ -510,6 +516,10 @@ void pkgrepo::parse()
                 }
             }
             if (p.size() == 0) {
+                if (!pkgFound || pkgName.empty()) {
+                    pkgFound = false;
+                    continue;
+                }
                 if ( (info.collection().size() == 0) &&
                         (info.baseName().size() > 0) )
                     info.collection(m_listOfPackages[info.baseName()].collection());
@@ -520,12 +530,6 @@ void pkgrepo::parse()
                 info.categories(pkgCategories);
                 info.dependencies(pkgDependencies);
                 info.conflicts(pkgConflicts);
-                pkgAlias.clear();
-                pkgSet.clear();
-                pkgCategories.clear();
-                pkgDependencies.clear();
-                pkgConflicts.clear();
-                pkgLibs.clear();
                 m_listOfPackages[pkgName] = info;
                 continue;
             }
-- 
2.43.0


From a7a0f15df01c0c20c410f424afed566c91f9f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 20/51] fix: run a post-install trigger only for installed
 files whose trigger rule says YES

---
 src/create.cxx |  1 +
 src/pkgadd.cxx | 43 ++++---------------------------------------
 src/pkgadd.h   |  7 +++----
 3 files changed, 8 insertions(+), 43 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..603ae55 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -293,6 +293,7 @@ void create::run()
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
 
 }
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 6936c6d..67c15a8 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -138,6 +138,7 @@ void pkgadd::run()
 	// with them the package counts as installed and up to date
 	moveMetaFilesPackage(package.first,package.second);
 	}
+	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
 }
 void pkgadd::postRun()
@@ -221,9 +222,6 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 	std::vector<rule_t> files_found;
 	getInstallRulesList(rules, cards::INSTALL, files_found);
 
-	std::vector<rule_t> scripts_found;
-	getPostInstallRulesList(rules, scripts_found);
-
 	for (auto i : info.files) {
 
 		bool install_file = true;
@@ -239,40 +237,11 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 			install_set.insert(install_set.end(), i);
 		else
 			non_install_set.insert(i);
-
-		std::pair <std::string, int> a;
-		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
-		j != scripts_found.rend();
-		j++) {
-			a.first=i;
-			a.second=(*j).event;
-
-			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				break;
-				}
-		}
-		if (install_file) {
-			if ( a.second == cards::LDCONF ) {
-				a.first="";
-			} else {
-				a.first=i;
-			}
-			m_postInstallList.insert(a);
-		}
 	}
-	scripts_found.clear();
 	info.files.clear();
 	info.files = install_set;
 
 #ifdef DEBUG
-	std::cerr << "PostInstall set:" << std::endl;
-	for (auto i : m_postInstallList)
-		std::cerr << "  "
-			<< i.first
-			<< " "
-			<< i.second
-			<< std::endl;
 	std::cerr << "Install set:" << std::endl;
 	for  (auto i : info.files)
 		std::cerr << "   " << i << std::endl;
@@ -294,17 +263,13 @@ pkgadd::applyPostInstallRules(const std::string& name, cards::db& info,
 	getPostInstallRulesList(rules, found);
 
 	for (auto i : info.files) {
-		bool install_file = true;
 		for (std::vector<rule_t>::reverse_iterator j = found.rbegin();
 		j != found.rend();
 		j++) {
-			std::pair <std::string, int> a;
-			a.first=(*j).event;
-			a.second=(*j).action;
-
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				if (install_file) {
+				if ((*j).action) {
+					std::pair <std::string, int> a;
+					a.second=(*j).event;
 					if ( a.second == cards::LDCONF ) {
 						a.first="";
 					} else {
diff --git a/src/pkgadd.h b/src/pkgadd.h
index d8b8171..78fdacf 100644
--- a/src/pkgadd.h
+++ b/src/pkgadd.h
@@ -16,10 +16,6 @@
 
 class pkgadd : public pkgdbh {
 
-	void			applyPostInstallRules(const std::string& name,
-						cards::db& info,
-						const std::vector<rule_t>& rules);
-
 	void			getInstallRulesList(const std::vector<rule_t>& rules,
 						cards::rule_event_t event,
 						std::vector<rule_t>& found) const;
@@ -31,6 +27,9 @@ protected:
 	std::string 	m_packageArchiveName;
 	bool 			m_upgrade;
 	bool 			m_force;
+	void			applyPostInstallRules(const std::string& name,
+						cards::db& info,
+						const std::vector<rule_t>& rules);
 	std::set<std::string>
 					applyInstallRules(const std::string& name,
 						cards::db& info,
-- 
2.43.0


From 15cf7e42c597727b304198bdc6f3cbdac62888e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 21/51] fix: compare the device numbers of two device nodes,
 not their file system

---
 src/file_utils.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 7235e9c..f6945b8 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -148,11 +148,11 @@ bool checkFilesEqual(const std::string& file1, const std::string& file2)
   }
   // Character devices
   else if (S_ISCHR(buf1.st_mode) && S_ISCHR(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
   // Block devices
   else if (S_ISBLK(buf1.st_mode) && S_ISBLK(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
 
   return false;
-- 
2.43.0


From a90b1a5832c2d8cb9d6d5349215ab4f2a9e5c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 22/51] fix: check the end of a download when its file is
 closed

---
 src/dwl.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 9584b5c..cfed306 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -93,6 +93,12 @@ void dwl::get()
 	curl_easy_setopt(m_curl, CURLOPT_VERBOSE, 1L);
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
+	// The end of the file may only be written when it is closed
+	bool written = true;
+	if (m_destinationFile.stream)
+		written = (fclose(m_destinationFile.stream) == 0);
+	if (m_curlCode == CURLE_OK && !written)
+		m_curlCode = CURLE_WRITE_ERROR;
 	if ( m_curlCode != CURLE_OK) {
 		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
 		throw std::runtime_error ( "\n\nURL   : " +
@@ -100,7 +106,6 @@ void dwl::get()
 		m_downloadFileName +"\n\n !!! download failed !!! \n");
 	}
 	if (m_destinationFile.stream) {
-		fclose(m_destinationFile.stream);
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
-- 
2.43.0


From 59d2edc8f97cd48bfce45da9e307256df7d84739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 23/51] fix: accept a tab as separator everywhere in
 cards.conf, and lines of any length or with a NUL byte

---
 src/conf.cxx | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 7946c77..2e40e42 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -15,13 +15,14 @@ void conf::parseConfig()
 	FILE* fp = fopen(m_filename.c_str(), "r");
 	if (!fp)
 		return;
-	char line[BUFSIZ];
+	char* line = nullptr;
+	size_t size = 0;
+	ssize_t length;
 	std::string s;
-	while (fgets(line, BUFSIZ, fp)) {
-		if (line[strlen(line)-1] == '\n' ) {
-			line[strlen(line)-1] = '\0';
-		}
-		s = line;
+	while ((length = getline(&line, &size, fp)) > 0) {
+		if (line[length-1] == '\n' )
+			length--;
+		s.assign(line, length);
 		bool found = false;
 
 		// strip comments
@@ -31,11 +32,7 @@ void conf::parseConfig()
 		}
 
 		// whitespace separates
-		pos = s.find(' ');
-		if (pos == std::string::npos) {
-			// try with a tab
-			pos = s.find('\t');
-		}
+		pos = s.find_first_of(" \t");
 		if (pos != std::string::npos) {
 			std::string key = s.substr(0, pos);
 			std::string val = stripWhiteSpace(s.substr(pos));
@@ -98,7 +95,7 @@ void conf::parseConfig()
 			}
 			m_arch = getMachineType();
 			if ( m_arch== "" ) {
-				return;
+				break;
 			}
 			if ( (key == "locale") || (key == "group") ) {
 				m_groups.push_back(val);
@@ -123,6 +120,7 @@ void conf::parseConfig()
 			}
 		}
 	}
+	free(line);
 	fclose(fp);
 	if (!m_url.empty()) {
 		for (auto& i : m_dirUrl) {
-- 
2.43.0


From add6c1e896757e47a1b435153855508fb7b49eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 24/51] fix: replace the metadata of a collection only by
 complete ones and report failures of cards sync

---
 src/sync.cxx | 44 ++++++++++++++++++++++++++++++--------------
 src/sync.h   |  2 +-
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/sync.cxx b/src/sync.cxx
index 4f8a11d..ce55498 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -51,21 +51,25 @@ void sync::run()
 
 	cards::dwl(destinationFiles, m_progress);
 
+	std::string failed;
 	for (auto file : destinationFiles) {
 		if (file.fileName == PUBLICKEY )
 			continue;
 
-		uncompress(file.dirName + file.fileName);
+		if (!uncompress(file.dirName + file.fileName))
+			failed += " " + file.dirName + file.fileName;
 	}
 	if (m_progress)
 		std::cout << std::endl;
+	if (!failed.empty())
+		throw std::runtime_error("could not update" + failed);
 }
-void sync::uncompress(const std::string& fileName)
+bool sync::uncompress(const std::string& fileName)
 {
 	std::ifstream inFile(fileName + ".zst", std::ios::binary);
 	if (!inFile) {
 		std::cerr << "Cannot open file: " << fileName << "\n";
-		return;
+		return false;
 	}
 
 	inFile.seekg(0, std::ios::end);
@@ -81,12 +85,12 @@ void sync::uncompress(const std::string& fileName)
 	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN) {
 		std::cerr << "Unknown size"
 			<< std::endl;
-		return;
+		return false;
 	} else if (decompressSize == ZSTD_CONTENTSIZE_ERROR) {
 		std::cerr << "Something wrong in the compress file:"
 			<< fileName
 			<< std::endl;
-		return;
+		return false;
 	}
 
 	// Decompress
@@ -97,18 +101,30 @@ void sync::uncompress(const std::string& fileName)
 	std::cerr << "Error uncompressing: "
 		<< ZSTD_getErrorName(result)
 		<< std::endl;
-	return;
+	return false;
 	}
 
-	// Write to file
-	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
-	if (!outFile)
+	// Write to a new file which takes the place of the old one once complete
+	const std::string newFileName = fileName + ".new";
+	FILE* outFile = fopen(newFileName.c_str(), "wb");
+	if (!outFile) {
 		std::cerr << "Can't open file: "
-		<< fileName
-		<< std::endl;
-
-	outFile.write(decompressData.data(),decompressData.size());
-	outFile.close();
+			<< newFileName
+			<< std::endl;
+		return false;
+	}
+	bool complete = fwrite(decompressData.data(), 1, result, outFile) == result
+		&& fflush(outFile) == 0
+		&& fsync(fileno(outFile)) == 0;
+	complete = (fclose(outFile) == 0) && complete;
+	if (!complete || rename(newFileName.c_str(), fileName.c_str()) != 0) {
+		std::cerr << "Can't write file: "
+			<< fileName
+			<< std::endl;
+		unlink(newFileName.c_str());
+		return false;
+	}
+	return true;
 }
 
 }
diff --git a/src/sync.h b/src/sync.h
index 603cae8..11c8402 100644
--- a/src/sync.h
+++ b/src/sync.h
@@ -17,7 +17,7 @@ class sync
 	bool        m_progress;
 
 	cards::conf                 m_config;
-	void        uncompress(const std::string& fileName);
+	bool        uncompress(const std::string& fileName);
 
 public:
 	sync(const std::string& configFileName,
-- 
2.43.0


From a79f15057ffd959ccc4660ecc0bb07be42f7b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 25/51] fix: let the collection listed first in cards.conf take
 precedence

---
 src/pkgrepo.cxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 5fe9c68..e95ac4b 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -521,8 +521,11 @@ void pkgrepo::parse()
                     continue;
                 }
                 if ( (info.collection().size() == 0) &&
-                        (info.baseName().size() > 0) )
-                    info.collection(m_listOfPackages[info.baseName()].collection());
+                        (info.baseName().size() > 0) ) {
+                    auto base = m_listOfPackages.find(info.baseName());
+                    if (base != m_listOfPackages.end())
+                        info.collection(base->second.collection());
+                }
                 pkgFound = false;
                 info.libs(pkgLibs);
                 info.alias(pkgAlias);
@@ -530,7 +533,11 @@ void pkgrepo::parse()
                 info.categories(pkgCategories);
                 info.dependencies(pkgDependencies);
                 info.conflicts(pkgConflicts);
-                m_listOfPackages[pkgName] = info;
+                // The collection which is listed first takes precedence
+                auto known = m_listOfPackages.find(pkgName);
+                if (known == m_listOfPackages.end()
+                        || known->second.dirName() == info.dirName())
+                    m_listOfPackages[pkgName] = info;
                 continue;
             }
         }
-- 
2.43.0


From befb8baa61fc4b5cf6bee36b6c0ec253ce955216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 26/51] fix: read the metadata of every collection in cards
 list -b, list -S and search, one record at a time

---
 src/list.cxx   | 136 ++++++++++++++++++-------------------------------
 src/search.cxx |  66 +++++++++---------------
 2 files changed, 75 insertions(+), 127 deletions(-)

diff --git a/src/list.cxx b/src/list.cxx
index 1e0813a..65d5ddb 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -22,57 +22,32 @@ list::list(const CardsArgumentParser& argParser,
     pkginfo.run();
 }
 void list::parseSets() {
-    int fd = 0;
     cards::conf config(m_configFileName);
-    config.size();
 
     std::set<std::string> sortedListOfSets;
 
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
-        fd = open(s.c_str(),O_RDONLY);
-
-		char *data = static_cast<char*>
-			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
-
-        if (data == MAP_FAILED) {
-		    perror("mmap");
-            std::cerr << "Cannot read "
+        std::vector<std::string> repoFileContent;
+        if (parseFile(repoFileContent, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
                 << s
-                << "\n Quit now !!!"
+                << std::endl
+                << "... continue with next"
                 << std::endl;
-		    close(fd);
-		    return;
-		}
-
-        const char *p = data;
-		const char *end = data + i.sRepo;
-
-        while (p < end) {
-            const char *nl = (const char*)memchr(p, '\n', i.sRepo);
-            if (!nl)
-                nl = end;
+            continue;
+        }
 
-			if (p[0] != '\n') {
-				size_t len = nl - p;
-				std::string found(p + 1, len - 1);
-				switch (p[0]) {
-					case SETS:
-                        sortedListOfSets.insert(found);
-						break;
-				}
-			}
-			p = nl + 1;
-		}
-        munmap(data,i.sRepo);
-		close(fd);
+        for (const auto& p : repoFileContent) {
+            if (p[0] == SETS)
+                sortedListOfSets.insert(p.substr(1));
+        }
     }
     for (auto s : sortedListOfSets)
         printf("%s\n", s.c_str());
 }
 void list::parse() {
-    int fd = 0;
 	struct package {
 		std::string name;
 		std::string ver;
@@ -81,63 +56,52 @@ void list::parse() {
 	};
 
     cards::conf config(m_configFileName);
-    config.size();
 
     std::vector<package> listOfPackages;
 
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
-    
-        fd = open(s.c_str(),O_RDONLY);
 
-		char *data = static_cast<char*>
-			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
-        
-        if (data == MAP_FAILED) {
-			perror("mmap");
-            std::cerr << "Cannot read "
+        std::vector<std::string> repoFileContent;
+        if (parseFile(repoFileContent, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
                 << s
-                << "\n Quit now !!!"
+                << std::endl
+                << "... continue with next"
                 << std::endl;
-			close(fd);
-			return;
-		}
-
-		const char *p = data;
-		const char *end = data + i.sRepo;
- 
-        package pkg;
-        pkg.col=" ";
-
-        while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
-    		if (!nl)
-				nl = end;
-
-			if (p[0] == '\n') {
-				listOfPackages.push_back(pkg);
-			} else {
-				size_t len = nl - p;
-				std::string found(p + 1, len - 1);
-				switch (p[0]) {
-					case NAME:
-						pkg.name = found;
-						break;
-					case VERSION:
-						pkg.ver = found;
-						break;
-					case RELEASE:
-						pkg.rel = found;
-						break;
-					case COLLECTION:
-						pkg.col = found;
-						break;
-				}
-			}
-			p = nl + 1;
-		}
-        munmap(data,i.sRepo);
-		close(fd);
+            continue;
+        }
+
+        // Nothing of the previous package is kept
+        package emptyPkg;
+        emptyPkg.col = i.collection;
+        package pkg = emptyPkg;
+
+        for (const auto& p : repoFileContent) {
+            if (p.empty()) {
+                if (!pkg.name.empty())
+                    listOfPackages.push_back(pkg);
+                pkg = emptyPkg;
+                continue;
+            }
+            switch (p[0]) {
+                case '@':
+                    pkg = emptyPkg;
+                    break;
+                case NAME:
+                    pkg.name = p.substr(1);
+                    break;
+                case VERSION:
+                    pkg.ver = p.substr(1);
+                    break;
+                case RELEASE:
+                    pkg.rel = p.substr(1);
+                    break;
+                case COLLECTION:
+                    pkg.col = p.substr(1);
+                    break;
+            }
+        }
     }
     for (auto p : listOfPackages)
         printf("(%s) %s %s-%s\n"
@@ -147,4 +111,4 @@ void list::parse() {
             , p.rel.c_str());
 }
 
-}
\ No newline at end of file
+}
diff --git a/src/search.cxx b/src/search.cxx
index 00dc6d4..1359f83 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -13,50 +13,37 @@ search::search(const CardsArgumentParser& argParser,
 	list();
 }
 void search::parse(){
-    int fd = 0;
-
     cards::conf config(m_configFileName);
-    config.size();
-
 
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
-        fd = open(s.c_str(),O_RDONLY);
-
-		char *data = static_cast<char*>
-			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
-
-        if (data == MAP_FAILED) {
-			perror("mmap");
-            std::cerr << "Cannot read "
+        std::vector<std::string> repoFileContent;
+        if (parseFile(repoFileContent, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
                 << s
-                << "\n Quit now !!!"
+                << std::endl
+                << "... continue with next"
                 << std::endl;
-			close(fd);
-			return;
-		}
-
-		const char *p = data;
-		const char *end = data + i.sRepo;
-
-        package pkg;
-        pkg.collection=" ";
-
-        while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
-    		if (!nl)
-				nl = end;
-
-			if (p[0] == '\n') {
-				m_listOfPackages.push_back(pkg);
-				pkg.group="";
-				pkg.description="";
-				pkg.nls="";
+            continue;
+        }
+
+        // Nothing of the previous package is kept
+        package emptyPkg;
+        emptyPkg.collection = i.collection;
+        package pkg = emptyPkg;
+
+        for (const auto& p : repoFileContent) {
+			if (p.empty()) {
+				if (!pkg.name.empty())
+					m_listOfPackages.push_back(pkg);
+				pkg = emptyPkg;
 			} else {
-				size_t len = nl - p;
-				std::string found(p + 1, len - 1);
+				std::string found(p.substr(1));
 				switch (p[0]) {
+					case '@':
+						pkg = emptyPkg;
+						break;
 					case NAME:
 						pkg.name = found;
 						break;
@@ -86,10 +73,7 @@ void search::parse(){
 						break;
 				}
 			}
-			p = nl + 1;
 		}
-        munmap(data,i.sRepo);
-		close(fd);
     }
 }
 void search::list() {
@@ -103,7 +87,7 @@ void search::list() {
 		std::string::size_type pos;
 
 		if (m_argParser.isSet(CardsArgumentParser::OPT_NAMES)) {
-			if ( j.name.find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
+			if ( convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
 					continue;
 
 			std::cout << "(" << j.collection << ") ";
@@ -117,9 +101,9 @@ void search::list() {
 					<< std::endl;
 			continue;
 		}
-		pos = j.collection.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		pos = convertToLowerCase(j.collection).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-			pos = j.name.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+			pos = convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.description).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-- 
2.43.0


From 98f491a7ec4a0dea5bfd8f581b134e4ec0898956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 27/51] fix: cards query -b and files -b: skip unreadable
 collections, read lines of any length, no empty names

---
 src/files.cxx | 21 +++++++++++----------
 src/query.cxx | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/files.cxx b/src/files.cxx
index 573fd95..a512d3c 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -28,14 +28,17 @@ void files::parse() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
         pkgFound = false;
 
-        // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
-
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
+        std::vector<std::string> repoFileContent;
+        if (parseFile(repoFileContent, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
+
+        for (auto line : repoFileContent) {
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
 				if (pos != std::string::npos) {
@@ -47,12 +50,10 @@ void files::parse() {
 				if (line.size() > 0) {
 					std::cout << line << std::endl;
 				} else {
-					fclose(fp);
 					return;
 				}
 			}
         }
-        fclose(fp);
     }
 }
 
diff --git a/src/query.cxx b/src/query.cxx
index 29f4279..675cbf5 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -45,18 +45,21 @@ void query::parse() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
 
-        // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
+        std::vector<std::string> repoFileContent;
+        if (parseFile(repoFileContent, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
 
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
+        for (auto line : repoFileContent) {
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
                 continue;
-            } else {
+            } else if (!line.empty()) {
                 line = "/" + line;
                 if (!regexec(&preg, line.c_str(), 0, 0, 0)) {
                     Pkg.collection = i.collection;
@@ -70,7 +73,6 @@ void query::parse() {
                 }
             }
         }
-        fclose(fp);
     }
     regfree(&preg);
     if (listOfFiles.size() > 1) {
-- 
2.43.0


From 1742a30c8d74ddc8c1d5906c26581b1f48783ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 28/51] fix: show the details of the package an alias stands
 for, and of an installed package under its own name

---
 src/pkgdbh.cxx  | 4 +++-
 src/pkginfo.cxx | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6c695fb..164e42a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -556,7 +556,9 @@ void pkgdbh::buildDatabase(const bool& files)
 
 				case ALIAS:
 					alias.insert(s.substr(1));
-					m_listOfAlias[s.substr(1)] = i;
+					// The name of an installed package is not an alias
+					if (m_listOfPackagesNames.find(s.substr(1)) == m_listOfPackagesNames.end())
+						m_listOfAlias[s.substr(1)] = i;
 					continue;
 
 				case CATEGORIES:
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 36d2c94..8a73a43 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -316,7 +316,7 @@ void pkginfo::run()
             std::cout << "Librairies"<< std::endl;
 
             if (checkPackageNameExist(m_arg)) {
-                for (auto i : m_listOfPackages[m_arg].files) {
+                for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
                     std::string filename('/' + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
@@ -359,7 +359,7 @@ void pkginfo::run()
             //  get the buildtime of the package: return 0 if not found
             buildDatabase(false);
             if (checkPackageNameExist(m_arg)) {
-                std::cout << m_listOfPackages[m_arg].build() << std::endl;
+                std::cout << m_listOfPackages[m_listOfAlias[m_arg]].build() << std::endl;
             } else {
                 std::cout << "0" << std::endl;
             }
@@ -408,12 +408,12 @@ void pkginfo::run()
                           << _("Installed Size : ") << sizeHumanRead(m_listOfPackages[arg].space())
                           << _("bytes") << std::endl
                           << _("Arch           : ") << m_listOfPackages[arg].arch() << std::endl;
-                if (m_listOfPackages[m_arg].dependency() == false)
+                if (m_listOfPackages[arg].dependency() == false)
                     std::cout << _("Man. installed : Yes");
                 else
                     std::cout << _("Man. installed : No");
                 std::cout << std::endl;
-                if (m_listOfPackages[m_arg].dependencies().size() > 0) {
+                if (m_listOfPackages[arg].dependencies().size() > 0) {
                     std::cout << _("Dependencies   : ");
                     for (auto i : m_listOfPackages[arg].dependencies())
                         std::cout << i.first << " ";
-- 
2.43.0


From 189beb95cb57103bbb1bdce11dccd842588220ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 29/51] fix: do not upgrade or remove a package of which only
 an alias is installed

---
 src/pkgadd.cxx | 2 +-
 src/remove.cxx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 67c15a8..2361027 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -77,7 +77,7 @@ void pkgadd::run()
 		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
 		treatErrors (package.first);
 	}
-	else if (!installed && m_upgrade)
+	else if (m_upgrade && m_listOfPackages.find(package.first) == m_listOfPackages.end())
 	{
 		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
 		treatErrors(package.first);
diff --git a/src/remove.cxx b/src/remove.cxx
index 3585eb9..021f72d 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -85,7 +85,7 @@ remove::remove(const std::string& commandName,
 		}
 	}
 	for ( auto i : groupSetPackagesToRemove ) {
-		if (checkPackageNameExist(i.first))
+		if (m_listOfPackages.find(i.first) != m_listOfPackages.end())
 			listOfPackagesToRemove.insert(i);
 	}
 	// Nothing is removed if one of them cannot be
@@ -128,7 +128,7 @@ remove::remove(const std::string& commandName,
 		}
 	}
 	for ( auto i : obsoletsGroups ) {
-		if (checkPackageNameExist(i))
+		if (m_listOfPackages.find(i) != m_listOfPackages.end())
 			obsoletsDeps.insert(i);
 	}
 	for ( auto i : obsoletsDeps ) {
-- 
2.43.0


From 36c6c1633d14724563062a6229c7668f2b4b0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 30/51] fix: cards upgrade forgets an obsolete package only
 when its files are removed

---
 src/upgrade.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 55a92b0..62c07b7 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -156,8 +156,8 @@ void upgrade::upgradePackages()
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
 		buildDatabase(true);
-		removePackageFilesRefsFromDB(i);
 		removePackageFiles(i);
+		removePackageFilesRefsFromDB(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
 	}
 	m_config.purge();
-- 
2.43.0


From b47f31c1018df482062d451cfbb8ea8345612302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 31/51] fix: a build date no calendar can hold does not stop
 cards info

---
 src/file_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index f6945b8..70233b8 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -60,7 +60,7 @@ std::string getDateFromEpoch(const time_t& epoch)
 {
 	const struct tm* time = localtime(&epoch);
 	char datetime[100] = {0};
-	if ( strftime(datetime, 100, "%c", time) > 0 )
+	if ( time && strftime(datetime, 100, "%c", time) > 0 )
 		return datetime;
 	else
 		return "";
-- 
2.43.0


From 3124d4d9c22767633233404212d53fa3f1bc33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 32/51] fix: sizes of 2 GiB and more

---
 src/db.cxx           |  4 ++--
 src/db.h             |  6 +++---
 src/pkgdbh.cxx       |  2 +-
 src/pkgrepo.cxx      |  8 ++++----
 src/pkgrepo.h        | 10 +++++-----
 src/repo.cxx         |  2 +-
 src/string_utils.cxx |  2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/db.cxx b/src/db.cxx
index 8799ed5..fcddaa5 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -15,11 +15,11 @@ db::~db()
 {
 	//nothing todo ATM
 }
-void db::space(unsigned int space)
+void db::space(unsigned int long space)
 {
 	m_space = space;
 }
-unsigned int db::space()
+unsigned int long db::space()
 {
 	return m_space;
 }
diff --git a/src/db.h b/src/db.h
index 57e7740..c3656b3 100644
--- a/src/db.h
+++ b/src/db.h
@@ -8,7 +8,7 @@ namespace cards {
 
 class db : public pkg
 {
-	unsigned int			m_space;      // disk occupation onces installed
+	unsigned int long		m_space;      // disk occupation onces installed
 	time_t					m_install;    // date of last installation
 	bool					m_dependency; // If TRUE it's automatically installed, it's a dep
 
@@ -20,14 +20,14 @@ public:
 	~db();
 	
 	time_t 					install();
-	unsigned int 			space();
+	unsigned int long		space();
 	bool 					dependency();
 	std::set<std::string>	files;
 	std::set<std::pair<std::string,time_t>>&
 							dependencies();
 
 	void					install(time_t time);
-	void					space(unsigned int space); 
+	void					space(unsigned int long space); 
 	void					dependency(bool dependency);
 	void					dependencies(const std::set<std::pair<std::string,time_t>> dependencies);
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 164e42a..a4d18a8 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -551,7 +551,7 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case SPACE:
-					info.space(atoi(s.substr(1).c_str()));
+					info.space(strtoul(s.substr(1).c_str(),nullptr,10));
 					continue;
 
 				case ALIAS:
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index e95ac4b..32d7a20 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -444,7 +444,7 @@ void pkgrepo::parse()
                     info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
-                    info.space(atoi(p.substr(1).c_str()));
+                    info.space(strtoul(p.substr(1).c_str(), nullptr, 10));
                     continue;
                 case ARCHITECTURE:
                     info.arch(p.substr(1));
@@ -511,7 +511,7 @@ void pkgrepo::parse()
                     info.signature(p.substr(1));
                     continue;
                 case SIZE:
-                    info.size(atoi(p.substr(1).c_str()));
+                    info.size(strtoul(p.substr(1).c_str(), nullptr, 10));
                     continue;
                 }
             }
@@ -720,12 +720,12 @@ std::string& pkgrepo::dirName(const std::string& name)
 
     return m_packageDirName;
 }
-unsigned int pkgrepo::getSpace(const std::string& name)
+unsigned int long pkgrepo::getSpace(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].space();
 }
-unsigned int pkgrepo::getSize(const std::string& name)
+unsigned int long pkgrepo::getSize(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].size();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 88f6ed4..ecd301d 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -23,9 +23,9 @@ struct m_package {
 	time_t available_build;
 	std::string installed_version;
 	std::string available_version;
-	unsigned int installed_space;
-	unsigned int available_space;
-	unsigned int available_size;
+	unsigned int long installed_space;
+	unsigned int long available_space;
+	unsigned int long available_size;
 	StatusEnumUpgrade status;
 
 };
@@ -165,8 +165,8 @@ public:
     std::string&             fileSignature(const std::string& name);
     std::string&             fileHash(const std::string& name);
     std::string&             getBinaryPackageInfo(const std::string& name);
-    unsigned int             getSpace(const std::string& name);
-    unsigned int             getSize(const std::string& name);
+    unsigned int long        getSpace(const std::string& name);
+    unsigned int long        getSize(const std::string& name);
     std::string&             version(const std::string& name);
     unsigned short int       release(const std::string& name);
 
diff --git a/src/repo.cxx b/src/repo.cxx
index ddd02e1..fbff139 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -110,7 +110,7 @@ repo::repo(const CardsArgumentParser& argParser,
                 fwrite(file.c_str(),1, file.size(),mp);
 
                 file = SIZE
-                    + itos(buf.st_size)
+                    + ultos(buf.st_size)
                     + "\n";
                 fwrite(file.c_str(),1, file.size(),mp);
 
diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 10365cc..6b6924d 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -113,7 +113,7 @@ std::string itos(unsigned int value)
 
 std::string ultos(unsigned long int value)
 {
-	static char buf[20];
+	static char buf[21];
 	sprintf(buf, "%lu", value);
 	return buf;
 }
-- 
2.43.0


From 1c37eac6dfa355546e27bc580111fde4ff02c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 33/51] fix: cards repo replaces metadata by complete ones
 only, and fails when a signature is wrong

---
 src/repo.cxx | 140 +++++++++++++++++++++------------------------------
 src/repo.h   |   3 +-
 2 files changed, 58 insertions(+), 85 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index fbff139..2772e9f 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -15,17 +15,22 @@ repo::repo(const CardsArgumentParser& argParser,
 	keyfile += PRIVATEKEY;
     if ((config.keypath().empty()) ||
         (!checkFileExist(keyfile))) {
+        unsigned int wrong = 0;
         for (auto pkg : m_pkgrepo.getListOfPackages()) {
             if (!m_pkgrepo.checkSign(pkg.first)) {
                 std::cout << "Package "
                     << pkg.first
                     << ": Wrong signature !!!"
                     << std::endl;
-                break;
+                ++wrong;
             }
             if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                 rotatingCursor();
         }
+        if (wrong > 0)
+            throw std::runtime_error(std::to_string(wrong)
+                + " package(s) with a wrong signature");
+
         std::cout << "All "
             << m_pkgrepo.getListOfPackages().size()
             << " packages checked"
@@ -56,26 +61,13 @@ repo::repo(const CardsArgumentParser& argParser,
                 << repofile
                 << std::endl;
 
-            FILE* mp = fopen(repometa.c_str(),"w");
-            if (!mp) {
-                std::cout << "Cannot open "
-                    << repometa
-                    << std::endl;
-                return;
-            }
-            FILE* fp = fopen(repofile.c_str(),"w");
-            if (!fp) {
-                std::cout << "Cannot open "
-                    << repofile
-                    << std::endl;
-                return;
-            }
+            // The metadata on disk are replaced once all is read
+            std::string meta, files;
             findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
             for (auto file : listOfFiles) {
                 archive a(file);
                 if (stat(file.c_str(), &buf) != 0) {
-                    std::cerr << "Cannot find size of " << file << std::endl;
-                    return;
+                    throw std::runtime_error("Cannot find size of " + file);
                 }
 
                 m_pkgrepo.generateHash(file);
@@ -85,50 +77,39 @@ repo::repo(const CardsArgumentParser& argParser,
                         + file.substr( pos + 1 );
 
                 file += "\n";
-                fwrite(file.c_str(),1, file.size(),mp);
-                fwrite(file.c_str(),1,file.size(),fp);
-                for (auto meta : a.contentMeta()) {
-                    meta += "\n";
-                    fwrite(meta.c_str(),1,meta.size(),mp);
-                }
-                for (auto file : a.setofFiles()) {
-                    file += "\n";
-                    fwrite(file.c_str(),1,file.size(),fp);
-                }
-                file = "\n";
-                fwrite(file.c_str(),1, file.size(),fp);
+                meta += file;
+                files += file;
+                for (auto line : a.contentMeta())
+                    meta += line + "\n";
+
+                for (auto name : a.setofFiles())
+                    files += name + "\n";
+
+                files += "\n";
 
                 m_pkgrepo.generateSign();
-                file = HASHSUM
+                meta += HASHSUM
                     + m_pkgrepo.hash()
                     + "\n";
-                fwrite(file.c_str(),1, file.size(),mp);
-
-                file = SIGNATURE
+                meta += SIGNATURE
                     + m_pkgrepo.sign()
                     + "\n";
-                fwrite(file.c_str(),1, file.size(),mp);
-
-                file = SIZE
+                meta += SIZE
                     + ultos(buf.st_size)
-                    + "\n";
-                fwrite(file.c_str(),1, file.size(),mp);
-
-                file = "\n";
-                fwrite(file.c_str(),1, file.size(),mp);
+                    + "\n\n";
                 if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                     rotatingCursor();
             }
-            fclose(fp);
-            fclose(mp);
             std::cout << std::endl;
             std::cout << "Compressing "
                 << repometa
                 << " and "
                 << repofile
                 << std::endl;
-            compress(repofile);
-            compress(repometa);
+            write(repofile, files);
+            write(repometa, meta);
+            compress(repofile, files);
+            compress(repometa, meta);
             if (m_argParser.otherArguments().size() > 0 )
                 break;
         }
@@ -138,53 +119,44 @@ repo::repo(const CardsArgumentParser& argParser,
                 << " packages signed"
                 << std::endl;
         else
-            if (!found) {
-                std::cerr << "Collection: "
-                    << m_argParser.otherArguments()[0]
-                    << " does not exist !!"
-                    << std::endl;
-            }
+            if (!found)
+                throw std::runtime_error("Collection: "
+                    + m_argParser.otherArguments()[0]
+                    + " does not exist !!");
     }
 
 }
-void repo::compress(const std::string fileName) {
-
-    std::ifstream inFile(fileName, std::ios::binary);
-    if (!inFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << std::endl;
-
-    inFile.seekg(0,std::ios::end);
-    size_t inSize = inFile.tellg();
-    inFile.seekg(0,std::ios::beg);
-
-    std::vector<char> inData(inSize);
-    inFile.read(inData.data(), inSize);
-    inFile.close();
-
+void repo::write(const std::string& fileName, const std::string& content)
+{
+    // A new file takes the place of the old one once complete
+    const std::string newFileName = fileName + ".new";
+    FILE* outFile = fopen(newFileName.c_str(), "wb");
+    if (!outFile)
+        throw std::runtime_error("Cannot open file: " + newFileName);
+
+    bool complete = fwrite(content.data(), 1, content.size(), outFile) == content.size()
+        && fflush(outFile) == 0
+        && fsync(fileno(outFile)) == 0;
+    complete = (fclose(outFile) == 0) && complete;
+    if (!complete || rename(newFileName.c_str(), fileName.c_str()) != 0) {
+        unlink(newFileName.c_str());
+        throw std::runtime_error("Cannot write file: " + fileName);
+    }
+}
+void repo::compress(const std::string& fileName, const std::string& content)
+{
     // Find Out the requested size
-    size_t compressSize = ZSTD_compressBound(inSize);
-    std::vector<char> compressData(compressSize);
+    size_t compressSize = ZSTD_compressBound(content.size());
+    std::string compressData(compressSize, '\0');
 
     // Compression
-    size_t result = ZSTD_compress(compressData.data(), compressSize, inData.data(), inSize, 19);
+    size_t result = ZSTD_compress(&compressData[0], compressSize, content.data(), content.size(), 19);
     if (ZSTD_isError(result))
-        std::cerr << "Compression error: "
-            << ZSTD_getErrorName(result)
-            << std::endl;
-
-    std::ofstream outFile(fileName + ".zst", std::ios::binary);
-
-    if (!outFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << ".zst"
-            << std::endl;
-
-    outFile.write(compressData.data(), result);
-    outFile.close();
+        throw std::runtime_error(std::string("Compression error: ")
+            + ZSTD_getErrorName(result));
 
+    compressData.resize(result);
+    write(fileName + ".zst", compressData);
 }
 
 
diff --git a/src/repo.h b/src/repo.h
index 87c3f61..abe1298 100644
--- a/src/repo.h
+++ b/src/repo.h
@@ -14,7 +14,8 @@ class repo
 
         cards::pkgrepo             m_pkgrepo;
         const CardsArgumentParser& m_argParser;
-        void                       compress(const std::string fileName);
+        void                       write(const std::string& fileName, const std::string& content);
+        void                       compress(const std::string& fileName, const std::string& content);
 
     public:
         repo(const CardsArgumentParser& argParser,
-- 
2.43.0


From 96bbc46a516802a37eef5cd1b1e02d95d8d32f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 34/51] fix: the private key cards keys makes is at no time
 readable by others

---
 src/pkgrepo.cxx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 32d7a20..e827dc6 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -90,22 +90,32 @@ void pkgrepo::generateKeys()
     }
     EVP_PKEY_CTX_free(ctx);
 
+    // Nobody else may read the private key, even while it is written
+    mode_t mask = umask(0077);
     FILE* f = fopen(keyfile.c_str(), "w");
+    umask(mask);
     if (!f) {
         EVP_PKEY_free(key);
         m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
         treatErrors(keyfile);
     }
 
+    // An already existing file keeps its permissions
+    if (fchmod(fileno(f), 0600) == -1) {
+        EVP_PKEY_free(key);
+        fclose(f);
+        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+        treatErrors(keyfile);
+    }
     if (PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr) == 0) {
         EVP_PKEY_free(key);
         fclose(f);
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
-    if (chmod(keyfile.c_str(), 0600) == -1) {
-        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+    if (fclose(f) != 0) {
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
     keyfile = ".";
@@ -123,8 +133,11 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
     EVP_PKEY_free(key);
+    if (fclose(f) != 0) {
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
+        treatErrors(keyfile);
+    }
 }
 void pkgrepo::generateDependencies()
 {
-- 
2.43.0


From 815505d5b1809c8ba12c69de62e4d8de097b0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 35/51] fix: read every port on its own: no fields or open
 lists of the previous one, comments after a list

---
 src/deptree.cxx |  2 +-
 src/pkgfile.cxx | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/deptree.cxx b/src/deptree.cxx
index af57045..7873674 100644
--- a/src/deptree.cxx
+++ b/src/deptree.cxx
@@ -21,7 +21,7 @@ void deptree::print(std::string name, std::string space, int level)
         if (m_tree[name].dependencies().size() > 0) {
             for (auto n : m_tree[name].dependencies()) {
                 if (n == name)
-                    break;
+                    continue;
                 print(n, space, level);
             }
         }
diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..1dfb465 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -101,6 +101,9 @@ void pkgfile::parse()
                 if (!checkFileExist(Pkgfile))
                     continue;
 
+                // Nothing of the previous port is kept
+                info = cards::port();
+                found = false;
                 info.collection(i.collection);
                 info.release(1);
                 std::vector<std::string> pkgFileContent;
@@ -108,7 +111,9 @@ void pkgfile::parse()
                     std::cerr << "Cannot read the file: " << Pkgfile
                               << std::endl
                               << "... continue with next" << std::endl;
+                    info.index(index);
                     m_listOfPackages[portName] = info;
+                    ++index;
                     continue;
                 }
                 std::string::size_type pos;
@@ -134,24 +139,24 @@ void pkgfile::parse()
                     else if (line.substr(0, 11) == "maintainer=")
                         info.maintainer(stripWhiteSpace(getValueBefore(getValue(line, '='), '#')));
                     else if (line.substr(0, 13) == "makedepends=(") {
-                        s += line.substr(13);
+                        line = line.substr(13);
                         found = true;
-                        pos = s.find(')');
+                        pos = line.find(')');
                         if (pos != std::string::npos) {
-                            s[pos] = ' ';
+                            line = line.substr(0, pos);
                             found = false;
-                        } else
-                            s = s + " ";
+                        }
+                        s += line + " ";
                         continue;
                     } else if (line.substr(0, 5) == "run=(") {
-                        s += line.substr(5);
+                        line = line.substr(5);
                         found = true;
-                        pos = s.find(')');
+                        pos = line.find(')');
                         if (pos != std::string::npos) {
-                            s[pos] = ' ';
+                            line = line.substr(0, pos);
                             found = false;
-                        } else
-                            s = s + " ";
+                        }
+                        s += line + " ";
                         continue;
                     }
                     if (found) {
@@ -168,11 +173,12 @@ void pkgfile::parse()
                 // we can use this good idea
                 // and probably generate a full value with echo $version-$release
                 // info.version(getVariable(Pkgfile, "version"));
-                info.dependencies(parseDelimitedSetList(s, " "));
+                info.dependencies(parseDelimitedSetList(s, " \t"));
                 info.index(index);
                 m_listOfPackages[portName] = info;
                 ++index;
             }
+            closedir(d);
         }
     }
     confirmDependencies();
-- 
2.43.0


From e3a1bc3f93e3ae8aed31549af78985436a6fe66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 36/51] fix: refuse an option the command does not have instead
 of ignoring it

---
 src/argument_parser.cxx       | 14 ++++++++++++++
 src/argument_parser.h         |  1 +
 src/cards_argument_parser.cxx | 14 ++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/argument_parser.cxx b/src/argument_parser.cxx
index a1e0dad..6907649 100644
--- a/src/argument_parser.cxx
+++ b/src/argument_parser.cxx
@@ -178,6 +178,10 @@ void ArgParser::parse(int argc, char** argv)
                 }
 
                 Option* o = m_optionsByLongName[argv[i]+2];
+                if (!isOptionOf(cmd, o)) {
+                    parseError(_("unknown option: ") + std::string(argv[i]+2),
+                               cmd->name);
+                }
                 std::string val = "";
                 if (o->requiresValue) {
                     if (valPtr == NULL || *valPtr == 0) {
@@ -201,6 +205,10 @@ void ArgParser::parse(int argc, char** argv)
                 }
 
                 Option* o = m_optionsByShortName[argv[i][1]];
+                if (!isOptionOf(cmd, o)) {
+                    parseError(_("unknown short option: ") + std::string(argv[i]+1),
+                               cmd->name);
+                }
                 std::string val = "";
                 if (o->requiresValue) {
                     if (i+1 == argc) {
@@ -281,6 +289,12 @@ void ArgParser::parse(int argc, char** argv)
     }
 }
 
+bool ArgParser::isOptionOf(const Command* cmd, const Option* o) const
+{
+    return cmd->options.find(o->id) != cmd->options.end() ||
+        cmd->mandatoryOptions.find(o->id) != cmd->mandatoryOptions.end();
+}
+
 void ArgParser::parseError(const std::string& error, const std::string& cmd) const
 {
 //    cerr << "Parse error: " << error << endl;
diff --git a/src/argument_parser.h b/src/argument_parser.h
index a1d5d74..2535001 100644
--- a/src/argument_parser.h
+++ b/src/argument_parser.h
@@ -296,6 +296,7 @@ private:
 
 	bool isSet(int key) const;
 
+	bool isOptionOf(const Command* cmd, const Option* o) const;
 	std::string generateOptionString(Option* o) const;
 
 	void parseError(const std::string& error, const std::string& cmd="") const;
diff --git a/src/cards_argument_parser.cxx b/src/cards_argument_parser.cxx
index db46c2f..8dc338b 100644
--- a/src/cards_argument_parser.cxx
+++ b/src/cards_argument_parser.cxx
@@ -260,6 +260,7 @@ As for the generation, a private key is needed, it is used by the packager only.
     addOption(CMD_UPGRADE, OPT_SIZE, false);
     addOption(CMD_UPGRADE, OPT_CHECK, false);
     addOption(CMD_UPGRADE, OPT_PROCEED, false);
+    addOption(CMD_UPGRADE, OPT_FORCE, false);
     addOption(CMD_UPGRADE, OPT_ROOT, false);
     addOption(CMD_UPGRADE, OPT_CONFIG_FILE, false);
 
@@ -272,9 +273,21 @@ As for the generation, a private key is needed, it is used by the packager only.
     addOption(CMD_INFO, OPT_CONFIG_FILE, false);
 
     addOption(CMD_SEARCH, OPT_NAMES, false);
+    addOption(CMD_SEARCH, OPT_CONFIG_FILE, false);
 
     addOption(CMD_QUERY, OPT_BINARIES, false);
+    addOption(CMD_QUERY, OPT_CONFIG_FILE, false);
+
     addOption(CMD_FILES, OPT_BINARIES, false);
+    addOption(CMD_FILES, OPT_CONFIG_FILE, false);
+
+    addOption(CMD_DIFF, OPT_NO_PROGRESS, false);
+    addOption(CMD_DIFF, OPT_ROOT, false);
+    addOption(CMD_DIFF, OPT_CONFIG_FILE, false);
+
+    addOption(CMD_PURGE, OPT_CONFIG_FILE, false);
+
+    addOption(CMD_KEYS, OPT_CONFIG_FILE, false);
 
     addOption(CMD_REMOVE, OPT_ROOT, false);
     addOption(CMD_REMOVE, OPT_CONFIG_FILE, false);
@@ -296,5 +309,6 @@ As for the generation, a private key is needed, it is used by the packager only.
     addOption(CMD_SYNC, OPT_NO_PROGRESS, false);
 
     addOption(CMD_REPO,OPT_CONFIG_FILE,false);
+    addOption(CMD_REPO, OPT_NO_PROGRESS, false);
 
 }
-- 
2.43.0


From 2b297b9be21c2b7962f184496d9d0be480effd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 37/51] fix: read ELF files within their bounds, 32 bit ones
 too, and those below the alternative root

---
 src/elf.h                          | 28 +++++++++++-----------
 src/file_utils.cxx                 |  4 +++-
 src/pkginfo.cxx                    |  2 +-
 src/runtime_dependencies_utils.cxx | 37 +++++++++++++-----------------
 4 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/src/elf.h b/src/elf.h
index 333375e..1e27aa1 100644
--- a/src/elf.h
+++ b/src/elf.h
@@ -43,10 +43,10 @@ typedef struct elf_internal_ehdr_end {
 
 /* dynamic section structure */
 typedef struct elf_internal_dyn_32 {
-	unsigned long d_tag;
+	unsigned int d_tag;
 	union { 
-		unsigned long d_val;
-		unsigned long d_ptr;
+		unsigned int d_val;
+		unsigned int d_ptr;
 	 } d_un;
 } Elf_Dyn_32;
 
@@ -63,14 +63,14 @@ typedef struct elf_internal_dyn_64 {
 typedef struct elf_internal_shdr_32 {
 	unsigned int  sh_name;
 	unsigned int  sh_type;
-	unsigned long sh_flags;
-	unsigned long sh_addr;
-	unsigned long sh_offset;
-	unsigned long sh_size;
+	unsigned int sh_flags;
+	unsigned int sh_addr;
+	unsigned int sh_offset;
+	unsigned int sh_size;
 	unsigned int  sh_link;
 	unsigned int  sh_info;
-	unsigned long sh_addralign;
-	unsigned long sh_entsize;
+	unsigned int sh_addralign;
+	unsigned int sh_entsize;
 } Elf_Shdr_32;
 
 typedef struct elf_internal_shdr_64 {
@@ -90,11 +90,11 @@ typedef struct elf_internal_shdr_64 {
 
 typedef struct elf_internal_phdr_32 {
 	unsigned int p_type;
-	unsigned long p_offset;
-	unsigned long p_vaddr;
-	unsigned long p_paddr;
-	unsigned long p_filesz;
-	unsigned long p_memsz;
+	unsigned int p_offset;
+	unsigned int p_vaddr;
+	unsigned int p_paddr;
+	unsigned int p_filesz;
+	unsigned int p_memsz;
 	unsigned int p_flags;
 	unsigned int p_align;
 } Elf_Phdr_32;
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 70233b8..0f8fa18 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -32,7 +32,9 @@ void * getDatas ( void * var, FILE * file, long offset, size_t size, size_t nmem
   }
   if (fread (mvar, size, nmemb, file) != nmemb)
   {
-    printf("Unable to read in 0x%lx bytes", (unsigned long)(size * nmemb));
+    std::cerr << "Unable to read in " << size * nmemb << " bytes" << std::endl;
+    if (var == nullptr)
+      free (mvar);
     return nullptr;
   }
   return mvar;
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 8a73a43..77804ae 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -317,7 +317,7 @@ void pkginfo::run()
 
             if (checkPackageNameExist(m_arg)) {
                 for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
-                    std::string filename('/' + i);
+                    std::string filename(m_root + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
                 if ((librariesList.size() > 0) && (Result > -1)) {
diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index 9f769c6..69cdd86 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -61,7 +61,8 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 	char * dynamic_strings = NULL;
 
-	if ( ! checkFileExist(file_name) || checkFileEmpty(file_name) )
+	struct stat status;
+	if ( stat(file_name, &status) || ! S_ISREG(status.st_mode) || status.st_size == 0 )
 		return error ("Cannot find file");
 
 	file = fopen (file_name, "rb" );
@@ -99,6 +100,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 /* 64 bit elf file */
     get_64bit_elf_header_part(file);
 
+	/* a truncated header has closed the file */
+	if (file == NULL)
+		return 0;
+
 /* Get the end part of the ELF Header */
 	buffer_end = (Elf_Ehdr_End *)malloc( sizeof(elf_header_end));
 	result = fread (buffer_end,1,sizeof(elf_header_end),file);
@@ -134,7 +139,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				elf_header_end.e_shentsize,
 				elf_header_end.e_shnum);
 
-		if (!section_headers_32bits)
+		if (!section_headers_32bits || elf_header_end.e_shentsize != sizeof(Elf_Shdr_32))
 		  return error ("There are no 32bits Sections in this file\n");
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
@@ -167,7 +172,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			elf_header_end.e_phentsize,
 			elf_header_end.e_phnum);
 
-		if (!program_headers_32bits)
+		if (!program_headers_32bits || elf_header_end.e_phentsize != sizeof(Elf_Phdr_32))
 			return error("Out of mem");
 
 		for (unsigned int i = 0;i < elf_header_end.e_phnum;i++)
@@ -215,7 +220,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_32bits;
-				edyn < dynamics_section_32bits + dynamic_size_32bits;
+				edyn < dynamics_section_32bits + dynamic_size_32bits / sizeof(*edyn);
 				edyn ++)
 		{
 			if (edyn->d_tag == DT_NULL)
@@ -223,10 +228,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <  dynamic_strings_length) )
+				if ( ( dynamic_strings != NULL ) && ( edyn->d_un.d_val < (unsigned long) dynamic_strings_length) )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if ( name != NULL  && name[strlen(name)-1] != '.')
+					if ( *name != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
@@ -256,7 +261,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				elf_header_end.e_shentsize,
 				elf_header_end.e_shnum);
 
-		if (!section_headers_64bits)
+		if (!section_headers_64bits || elf_header_end.e_shentsize != sizeof(Elf_Shdr_64))
 			return error ("There are no Sections in this file\n");
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
@@ -282,23 +287,13 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				break;
 			}
 		}
-    if ( offset == elf_header_end.e_shnum - 1)
-    {
-      dependencies_utils_end();
-#ifdef DEBUG
-	printf("No dynamics found\n");
-	printf("offset : %u 0x%x\n",
-	offset,offset);
-#endif
-      return 0;
-    }
 /* Program header */
 		program_headers_64bits = (Elf_Phdr_64 *) getDatas(NULL, file,
 			elf_header_64bits.e_phoff,
 			elf_header_end.e_phentsize,
 			elf_header_end.e_phnum);
 
-		if (!program_headers_64bits)
+		if (!program_headers_64bits || elf_header_end.e_phentsize != sizeof(Elf_Phdr_64))
 			return error("Out of mem");
 
 		for (unsigned int i = 0;i < elf_header_end.e_phnum;i++)
@@ -344,7 +339,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_64bits;
-			edyn < dynamics_section_64bits + dynamic_size_64bits;
+			edyn < dynamics_section_64bits + dynamic_size_64bits / sizeof(*edyn);
 			edyn ++)
 		{
 #ifdef DEBUG
@@ -355,10 +350,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <	dynamic_strings_length) )
+				if ( ( dynamic_strings != NULL ) && ( edyn->d_un.d_val < (unsigned long) dynamic_strings_length) )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if (name[strlen(name)-1] != '.')
+					if (*name != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
-- 
2.43.0


From fc8cc01b36490f443a30957d217057c40b15674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 38/51] fix: refuse an archive which is cut off or damaged,
 install files with names foreign to the locale

---
 src/archive.cxx |  3 ++-
 src/pkgdbh.cxx  | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 505e603..2bb877c 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -89,7 +89,8 @@ void archive::extractFileContent
     }
     unsigned int i = 0;
     int64_t entry_size;
-    while (archive_read_next_header(ar, &ae) == ARCHIVE_OK) {
+    int status;
+    while ((status = archive_read_next_header(ar, &ae)) == ARCHIVE_OK || status == ARCHIVE_WARN) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index a4d18a8..e684a7a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1129,6 +1129,23 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 
 	return files;
 }
+// An archive which is cut off or damaged cannot be read to its end
+static bool isArchiveComplete(const std::string& filename)
+{
+	struct archive* archive;
+	struct archive_entry* entry;
+	int status;
+
+	archive = archive_read_new();
+	INIT_ARCHIVE(archive);
+	status = archive_read_open_filename(archive,
+		filename.c_str(),
+		DEFAULT_BYTES_PER_BLOCK);
+	while (status == ARCHIVE_OK || status == ARCHIVE_WARN)
+		status = archive_read_next_header(archive, &entry);
+	FREE_ARCHIVE(archive);
+	return status == ARCHIVE_EOF;
+}
 std::pair<std::string, cards::db>
 pkgdbh::openArchivePackage(const std::string& filename)
 {
@@ -1136,6 +1153,10 @@ pkgdbh::openArchivePackage(const std::string& filename)
 	archive packageArchive(filename);
 
 	std::string basename(filename, filename.rfind('/') + 1);
+	if (!isArchiveComplete(filename)) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(basename);
+	}
 	m_filesNumber = packageArchive.size();
 	if (m_filesNumber == 0 ) {
 		m_actualError = cards::ERROR_ENUM_EMPTY_PACKAGE;
@@ -1204,8 +1225,11 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	getcwd(buf, sizeof(buf));
 	chdir(m_root.c_str());
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-		ARCHIVE_OK; ++m_installedFilesNumber)
+	// With a warning the entry is a good one, its name has characters which
+	// the actual locale does not have
+	int status = archive_read_next_header(archive, &entry);
+	for (m_installedFilesNumber = 0; status == ARCHIVE_OK || status == ARCHIVE_WARN;
+		status = archive_read_next_header(archive, &entry), ++m_installedFilesNumber)
 	{
 		const char *archive_filename = archive_entry_pathname(entry);
 		if ( strcmp(archive_filename,PKG_PRE_INSTALL) == 0)
@@ -1263,8 +1287,9 @@ void pkgdbh::installArchivePackage
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++m_installedFilesNumber) {
+	int status = archive_read_next_header(archive, &entry);
+	for (m_installedFilesNumber = 0; status == ARCHIVE_OK || status == ARCHIVE_WARN;
+	     status = archive_read_next_header(archive, &entry), ++m_installedFilesNumber) {
 
 		progressInfo(cards::ACTION_ENUM_PKG_INSTALL_RUN);
 
@@ -1339,6 +1364,10 @@ void pkgdbh::installArchivePackage
 			treatErrors(filename);
 		}
 	}
+	if (status != ARCHIVE_EOF) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(filename);
+	}
 	FREE_ARCHIVE(archive);
 }
 const void pkgdbh::readRulesFile()
-- 
2.43.0


From ebee21553069ddbc4c0848ca4282b9d5d7bf186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 39/51] fix: a relative root or a second relative archive was
 not found any more after the first installation step

---
 src/pkgadd.cxx | 9 +++++++++
 src/pkgdbh.cxx | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 2361027..399f221 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -66,6 +66,13 @@ void pkgadd::preRun()
 }
 void pkgadd::run()
 {
+	// The files are installed from within the root, which has to be found
+	// from there too, and so do the next archives afterwards
+	char cwd[PATH_MAX];
+	bool comeBack = getcwd(cwd, sizeof(cwd)) != NULL;
+	if (comeBack && m_root[0] != '/')
+		m_root = std::string(cwd) + "/" + m_root;
+
 	// Reading the archiving to find a list of files
 	std::pair<std::string, cards::db> package = openArchivePackage(m_packageArchiveName);
 
@@ -140,6 +147,8 @@ void pkgadd::run()
 	}
 	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
+	if (comeBack && chdir(cwd) == -1)
+		std::cerr << m_utilName << _(": could not go back to ") << cwd << std::endl;
 }
 void pkgadd::postRun()
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index e684a7a..404d092 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1463,6 +1463,11 @@ const void pkgdbh::readRulesFile()
 void pkgdbh::runLastPostInstall()
 {
 	if ( m_postInstallList.size() > 0 ) {
+		// The files are given relative to the root
+		if (chdir(m_root.c_str()) == -1) {
+			std::cerr << m_utilName << _(": could not go to ") << m_root << std::endl;
+			return;
+		}
 		progressInfo(cards::ACTION_ENUM_PKG_POSTINSTALL_START);
 		process p;
 		std::string args;
-- 
2.43.0


From 0cee4a819e35b8f7061183918ab5c641e81ad050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 40/51] fix: report an archive which is cut off or damaged
 instead of printing a part of its footprint

---
 src/pkgdbh.cxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 404d092..6716f99 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1580,6 +1580,7 @@ bool pkgdbh::checkRuleAppliesToFile
 void pkgdbh::getFootprintPackage(std::string& filename)
 {
 	unsigned int i;
+	int status;
 	struct archive* archive;
 	struct archive_entry* entry;
 
@@ -1603,8 +1604,9 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 			}
       //         throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	status = archive_read_next_header(archive, &entry);
+	for (i = 0; status == ARCHIVE_OK || status == ARCHIVE_WARN;
+	     status = archive_read_next_header(archive, &entry), ++i) {
 
 		mode_t mode = archive_entry_mode(entry);
 
@@ -1621,6 +1623,10 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 		//	throw RunTimeErrorWithErrno("could not read " + filename, archive_errno(archive));
 		}
 	}
+	if (status != ARCHIVE_EOF) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(filename);
+	}
 	FREE_ARCHIVE(archive);
 
 	// Too bad, there doesn't seem to be a way to reuse our archive
@@ -1636,8 +1642,9 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 				treatErrors(filename);
         // throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 			}
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	status = archive_read_next_header(archive, &entry);
+	for (i = 0; status == ARCHIVE_OK || status == ARCHIVE_WARN;
+	     status = archive_read_next_header(archive, &entry), ++i) {
 		mode_t mode = archive_entry_mode(entry);
 
 		// Access permissions
-- 
2.43.0


From 1da9f98f737cb19a4260906b318b61827f28179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 41/51] fix: refuse a package whose file names lead out of the
 root directory

---
 src/pkgdbh.cxx | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6716f99..86fba5f 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1129,6 +1129,11 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 
 	return files;
 }
+// A name with a component '..' leads out of the root directory
+static bool leavesRoot(const char* name)
+{
+	return name && ("/" + std::string(name) + "/").find("/../") != std::string::npos;
+}
 // An archive which is cut off or damaged cannot be read to its end
 static bool isArchiveComplete(const std::string& filename)
 {
@@ -1141,8 +1146,13 @@ static bool isArchiveComplete(const std::string& filename)
 	status = archive_read_open_filename(archive,
 		filename.c_str(),
 		DEFAULT_BYTES_PER_BLOCK);
-	while (status == ARCHIVE_OK || status == ARCHIVE_WARN)
+	while (status == ARCHIVE_OK || status == ARCHIVE_WARN) {
 		status = archive_read_next_header(archive, &entry);
+		if ((status == ARCHIVE_OK || status == ARCHIVE_WARN) &&
+			(leavesRoot(archive_entry_pathname(entry)) ||
+			leavesRoot(archive_entry_hardlink(entry))))
+			break;
+	}
 	FREE_ARCHIVE(archive);
 	return status == ARCHIVE_EOF;
 }
@@ -1178,7 +1188,10 @@ pkgdbh::openArchivePackage(const std::string& filename)
 	m_packageArchiveCollection = packageArchive.collection();
 	m_packageArchiveVersion = packageArchive.version();
 	m_packageArchiveRelease = itos(packageArchive.release());
-	if (packageArchive.name().empty() ) {
+	if (packageArchive.name().empty()
+		|| packageArchive.name() == "."
+		|| packageArchive.name() == ".."
+		|| packageArchive.name().find('/') != std::string::npos) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
 		treatErrors(basename);
 	}
@@ -1198,6 +1211,10 @@ pkgdbh::openArchivePackage(const std::string& filename)
 
 	std::set<std::string> fileList =  packageArchive.setofFiles();
 	for (auto i :fileList) {
+		if (leavesRoot(i.c_str())) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(basename);
+		}
 		result.second.files.insert(i);
 	}
 	result.second.dependencies(packageArchive.listofDependenciesBuildDate());
@@ -1318,6 +1335,10 @@ void pkgdbh::installArchivePackage
 
 		archive_entry_set_pathname(entry, const_cast<char*>
 		                           (real_filename.c_str()));
+		// The target of a hard link lies below the root too
+		if (archive_entry_hardlink(entry) && archive_entry_hardlink(entry)[0] == '/')
+			archive_entry_set_hardlink(entry, trimFileName(absm_root +
+				archive_entry_hardlink(entry)).c_str());
 
 		// Extract file
 		unsigned int flags = ARCHIVE_EXTRACT_OWNER | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_UNLINK;
-- 
2.43.0


From d0c966655b2e1dfa6b24491d5828fe1db810a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:45 +0000
Subject: [PATCH 42/51] fix: ignore repository entries whose archive does not
 lie in the directory of the collection

---
 src/pkgrepo.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index e827dc6..730bf04 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -429,6 +429,11 @@ void pkgrepo::parse()
         std::pair<std::string, time_t> dependency;
         for (auto p : repoFileContent) {
             if (p[0] == '@') {
+                // The archive has to lie in the directory of the collection
+                if (p.find('/') != std::string::npos) {
+                    pkgFound = false;
+                    continue;
+                }
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
                     // Nothing of the previous package is kept
-- 
2.43.0


From 61a07dfe8dae57b2404a09353f71c46c2e9d2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 43/51] fix: a dry run of cards create removed packages and
 built the port

---
 src/create.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index 603ae55..10c3a05 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -32,6 +32,10 @@ create::create(CardsArgumentParser& argParser)
     }
     if (isACollection())
         buildCollection();
+    else if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
+        std::cout << m_argParser.otherArguments()[0]
+            << " ===> SHOULD BE BUILD !"
+            << std::endl;
     else
         buildBinary(m_argParser.otherArguments()[0]);
 }
-- 
2.43.0


From f9167ff60fe9cdc99f64a677c9a943505582b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 44/51] fix: cards create took a build that could not be
 started for a success

---
 src/create.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index 10c3a05..116c597 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -633,7 +633,7 @@ void create::buildBinary(std::string packageName)
         break;
     }
 
-    if (result > 0) {
+    if (result != 0) {
         s += NORMAL;
         m_actualError = ERROR_ENUM_CANNOT_PARSE_FILE;
         treatErrors("Pkgfile: " + s);
-- 
2.43.0


From 9fbe7d5cdf3c424ded22b4650da9f9e133ca419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 45/51] fix: cards create gave up the lock of the database
 before it changed the system

---
 src/create.cxx | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 116c597..3c99779 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -114,8 +114,7 @@ void create::base()
         }
         found = false;
     }
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-        cards::lock Lock(m_root, true);
+    cards::lock Lock(m_root, true);
     for (auto i : list) {
         m_packageName = i;
 
@@ -258,6 +257,10 @@ void create::run()
 
 	preRun();
 
+	{
+	// Another process has to see none or all of the changes below
+	cards::lock Lock(m_root, true);
+
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
 		package.second);
 	if (!conflicting_files.empty()) {
@@ -273,30 +276,31 @@ void create::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
-		// Remove metadata about the package removed
-		removePackageFilesRefsFromDB(package.first);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
+		// Remove metadata about the package removed
+		removePackageFilesRefsFromDB(package.first);
 	}
 
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-	    cards::lock Lock(m_root, true);
-
-
     installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META)) {
-	    // Add the metadata about the package to the DB
-	    moveMetaFilesPackage(package.first,package.second);
-
 	    // Add the info about the files to the DB
-	    addPackageFilesRefsToDB(package.first, package.second);
+	    cards::db info = package.second;
+	    for (auto i : package.second.files)
+		if (i[0] == '.')
+		    info.files.erase(i);
+	    addPackageFilesRefsToDB(package.first, info);
+
+	    // Add the metadata about the package to the DB. They come last,
+	    // with them the package counts as installed and up to date
+	    moveMetaFilesPackage(package.first,package.second);
     } else {
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+	}
 	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
 
-- 
2.43.0


From 6117ca948580266abd5a6c98d3786e3e7231232e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 46/51] fix: reading the database removed the metadata of an
 installation which was still running

---
 src/create.cxx     |  2 ++
 src/file_utils.cxx | 12 ++++++++++++
 src/pkgadd.cxx     |  2 ++
 src/pkgdbh.cxx     |  1 -
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index 3c99779..6572d03 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -282,6 +282,8 @@ void create::run()
 		removePackageFilesRefsFromDB(package.first);
 	}
 
+    // Nothing of an installation which was interrupted is taken over
+    cleanupMetaFiles(m_root);
     installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 0f8fa18..0494229 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -200,6 +200,18 @@ void cleanupMetaFiles(const std::string& basedir)
 #endif
 		remove ( (basedir + "/.POST").c_str() );
 	}
+	if ( checkFileExist ( basedir + "/.PRER" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.PRER removed" << std::endl;
+#endif
+		remove ( (basedir + "/.PRER").c_str() );
+	}
+	if ( checkFileExist ( basedir + "/.POSTR" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.POSTR removed" << std::endl;
+#endif
+		remove ( (basedir + "/.POSTR").c_str() );
+	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 399f221..0d8cc6d 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -130,6 +130,8 @@ void pkgadd::run()
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 	}
+	// Nothing of an installation which was interrupted is taken over
+	cleanupMetaFiles(m_root);
 	// Installation progressInfo of the files on the HD
 	installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 86fba5f..ebfbb90 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -470,7 +470,6 @@ pkgdbh::buildSimpleDependenciesDatabase()
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
-	cleanupMetaFiles(m_root);
 	if (!m_DB_Empty)
 		return;
 
-- 
2.43.0


From 2c8e1bfe10b8ed707a70685ded05ebccb49775a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 47/51] fix: a pre install script which failed stayed in the
 root directory, one left over there was run for another package

---
 src/pkgdbh.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index ebfbb90..55caf6a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1241,6 +1241,9 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	getcwd(buf, sizeof(buf));
 	chdir(m_root.c_str());
 
+	// Only the script of this package is run
+	bool found = false;
+
 	// With a warning the entry is a good one, its name has characters which
 	// the actual locale does not have
 	int status = archive_read_next_header(archive, &entry);
@@ -1260,20 +1263,22 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 					<< " : " << msg << std::endl;
 				exit(EXIT_FAILURE);
 			}
+			found = true;
 			break;
 
 		}
 
 	}
 	FREE_ARCHIVE(archive);
-	if (checkFileExist(PKG_PRE_INSTALL))
+	if (found)
 	{
 		progressInfo(cards::ACTION_ENUM_PKG_PREINSTALL_START);
 		process preinstall(SHELL,PKG_PRE_INSTALL, 0 );
-		if (preinstall.executeShell()) {
+		int failed = preinstall.executeShell();
+		removeFile(m_root,PKG_PRE_INSTALL);
+		if (failed) {
 			exit(EXIT_FAILURE);
 		}
-		removeFile(m_root,PKG_PRE_INSTALL);
 		progressInfo(cards::ACTION_ENUM_PKG_PREINSTALL_END);
 	}
 	chdir(buf);
-- 
2.43.0


From 172597e0acb69ae7c8adb44838d1707e0285bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:01 +0000
Subject: [PATCH 48/51] fix: a command changed files by the database as it was
 before another process changed it

---
 src/create.cxx  |  2 ++
 src/pkgadd.cxx  | 30 +++++++++++++++++++-----------
 src/pkgadd.h    |  2 ++
 src/pkgdbh.cxx  | 28 ++++++++++++++++++++++++++++
 src/pkgdbh.h    | 15 +++++++++++++++
 src/pkgrm.cxx   |  3 +++
 src/upgrade.cxx |  5 ++++-
 7 files changed, 73 insertions(+), 12 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 6572d03..7744d47 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -125,6 +125,7 @@ void create::base()
         // Remove the files on hd
         removePackageFiles(m_packageName);
     }
+    databaseChanged();
 }
 bool create::isACollection()
 {
@@ -302,6 +303,7 @@ void create::run()
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+    databaseChanged();
 	}
 	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 0d8cc6d..1f1f4b9 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -64,6 +64,20 @@ void pkgadd::preRun()
 	}
 	extractAndRunPREfromPackage(m_packageArchiveName);
 }
+void pkgadd::checkInstalled(const std::string& name)
+{
+	bool installed = checkPackageNameExist(name);
+	if (installed && !m_upgrade)
+	{
+		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
+		treatErrors (name);
+	}
+	else if (m_upgrade && m_listOfPackages.find(name) == m_listOfPackages.end())
+	{
+		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
+		treatErrors(name);
+	}
+}
 void pkgadd::run()
 {
 	// The files are installed from within the root, which has to be found
@@ -78,17 +92,7 @@ void pkgadd::run()
 
 	readRulesFile();
 
-	bool installed = checkPackageNameExist(package.first);
-	if (installed && !m_upgrade)
-	{
-		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
-		treatErrors (package.first);
-	}
-	else if (m_upgrade && m_listOfPackages.find(package.first) == m_listOfPackages.end())
-	{
-		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
-		treatErrors(package.first);
-	}
+	checkInstalled(package.first);
 
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
@@ -99,6 +103,9 @@ void pkgadd::run()
 	{
 	// Another process has to see none or all of the changes below
 	cards::lock Lock(m_root, true);
+	// which may have made changes in the meantime
+	refreshDatabase();
+	checkInstalled(package.first);
 
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
 		package.second);
@@ -146,6 +153,7 @@ void pkgadd::run()
 	// Add the metadata about the package to the DB. They come last,
 	// with them the package counts as installed and up to date
 	moveMetaFilesPackage(package.first,package.second);
+	databaseChanged();
 	}
 	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
diff --git a/src/pkgadd.h b/src/pkgadd.h
index 78fdacf..6e715f0 100644
--- a/src/pkgadd.h
+++ b/src/pkgadd.h
@@ -23,6 +23,8 @@ class pkgadd : public pkgdbh {
 	void 			getPostInstallRulesList(const std::vector<rule_t>& rules,
 						std::vector<rule_t>& found) const;
 
+	void			checkInstalled(const std::string& name);
+
 protected:
 	std::string 	m_packageArchiveName;
 	bool 			m_upgrade;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 55caf6a..ba67328 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -11,6 +11,7 @@ pkgdbh::pkgdbh(const std::string& name)
 	: m_utilName(name)
 	, m_dependency(false)
 	, m_DB_Empty(true)
+	, m_DB_Time{}
 	, m_progress(false)
 	, m_runPrePost(true)
 	, m_root("/")
@@ -21,6 +22,7 @@ pkgdbh::pkgdbh()
 	: m_utilName("pkgdbh")
 	, m_dependency(false)
 	, m_DB_Empty(true)
+	, m_DB_Time{}
 	, m_progress(false)
 	, m_runPrePost(true)
 	, m_root("/")
@@ -400,6 +402,7 @@ void pkgdbh::getListOfPackagesNames()
 	if (! m_listOfPackagesNames.empty())
 		return;
 
+	m_DB_Time = getDatabaseTime();
 	const std::string pathdb =  m_root + PKG_DB_DIR;
 	if (findDir(m_listOfPackagesNames, pathdb) != 0) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
@@ -466,6 +469,31 @@ pkgdbh::buildSimpleDependenciesDatabase()
 	}
 }
 
+// The time of the last change of the database
+struct timespec pkgdbh::getDatabaseTime() const
+{
+	struct stat st{};
+	stat((m_root + PKG_DB_DIR).c_str(), &st);
+	return st.st_mtim;
+}
+void pkgdbh::databaseChanged()
+{
+	utime((m_root + PKG_DB_DIR).c_str(), NULL);
+	m_DB_Time = getDatabaseTime();
+}
+void pkgdbh::refreshDatabase()
+{
+	const struct timespec t = getDatabaseTime();
+	if (t.tv_sec == m_DB_Time.tv_sec && t.tv_nsec == m_DB_Time.tv_nsec)
+		return;
+
+	m_listOfPackagesNames.clear();
+	m_listOfPackages.clear();
+	m_listOfAlias.clear();
+	m_DB_Empty = true;
+	buildDatabase(true);
+}
+
  // Populate the database with all details infos
 void pkgdbh::buildDatabase(const bool& files)
 {
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 3d616da..3a554bf 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -17,6 +17,8 @@
 #include <grp.h>
 #include <pwd.h>
 #include <regex.h>
+#include <sys/stat.h>
+#include <utime.h>
 
 typedef std::map<std::string, cards::db> packages_t;
 
@@ -36,6 +38,9 @@ class pkgdbh {
 
     bool                    m_dependency;
     bool                    m_DB_Empty;
+    struct timespec         m_DB_Time;
+
+    struct timespec         getDatabaseTime() const;
 
     void                    runLastPostInstall();
     void                    getListOfPackagesNames();
@@ -48,6 +53,16 @@ protected:
 
     void                    buildSimpleDependenciesDatabase();
 
+    /**
+     * Both need the lock:
+     * Reads the database again if another process has changed it since
+     */
+    void                    refreshDatabase();
+    /**
+     * Lets another process see that the database has changed
+     */
+    void                    databaseChanged();
+
     void                    addPackageFilesRefsToDB(const std::string& name,
                                 const cards::db& info);
 
diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index 14d24b3..96657ea 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -66,6 +66,8 @@ void pkgrm::run()
 	}
 
 	cards::lock Lock(m_root, true);
+	// Another process may have made changes in the meantime
+	refreshDatabase();
 
 	readRulesFile();
 
@@ -84,6 +86,7 @@ void pkgrm::run()
 
 	// Remove metadata about the package removed
 	removePackageFilesRefsFromDB(m_packageName);
+	databaseChanged();
 }
 void pkgrm::postRun()
 {
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 62c07b7..319992e 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -155,9 +155,12 @@ void upgrade::upgradePackages()
 	}
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
-		buildDatabase(true);
+		refreshDatabase();
+		if (!checkPackageNameExist(i))
+			continue;
 		removePackageFiles(i);
 		removePackageFilesRefsFromDB(i);
+		databaseChanged();
 		syslog(LOG_INFO,"%s removed",i.c_str());
 	}
 	m_config.purge();
-- 
2.43.0


From 52b1d3957d15ce4d6ba72fc2d039da643c8801f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:45 +0000
Subject: [PATCH 49/51] fix: cards remove ignored a set named after another
 package

---
 src/remove.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 021f72d..a61298b 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -42,6 +42,7 @@ remove::remove(const std::string& commandName,
 			(alias != m_listOfAlias.end()))
 			name = alias->second;
 
+		bool isCollectionOrGroup = false;
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
 				if (( i == k.first) || ( name == k.first)) {
@@ -55,9 +56,10 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.first=j.first;
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
+				isCollectionOrGroup = true;
 			}
 		}
-		if (listOfPackagesToRemove.empty()) {
+		if (!isCollectionOrGroup) {
 			for (auto j : m_listOfPackages) {
 				for (auto k : j.second.sets()) {
 					if ( i == k ) {
-- 
2.43.0


From a0705e5caf2f8adcdd13c957fff0c6b6f69642bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:16 +0000
Subject: [PATCH 50/51] fix: cards remove ignored names that are not installed

---
 src/remove.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/remove.cxx b/src/remove.cxx
index a61298b..e6b71c7 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -42,6 +42,7 @@ remove::remove(const std::string& commandName,
 			(alias != m_listOfAlias.end()))
 			name = alias->second;
 
+		bool found = false;
 		bool isCollectionOrGroup = false;
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
@@ -57,6 +58,7 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
 				isCollectionOrGroup = true;
+				found = true;
 			}
 		}
 		if (!isCollectionOrGroup) {
@@ -66,6 +68,7 @@ remove::remove(const std::string& commandName,
 						PackageToRemove.first = j.first;
 						PackageToRemove.second=j.second.collection();
 						listOfPackagesToRemove.insert(PackageToRemove);
+						found = true;
 					}
 				}
 			}
@@ -74,6 +77,11 @@ remove::remove(const std::string& commandName,
 			PackageToRemove.first = name;
 			PackageToRemove.second = getCollection(name);
 			listOfPackagesToRemove.insert(PackageToRemove);
+			found = true;
+		}
+		if (!found) {
+			m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_INSTALL;
+			treatErrors(i);
 		}
 	}
 	std::set< std::pair<std::string,std::string> > groupSetPackagesToRemove;
-- 
2.43.0


From a7d6e1106eba8a2be4d16736b648b21348e58a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:10 +0000
Subject: [PATCH 51/51] fix: packages were installed in the current directory
 when the root could not be entered

---
 src/pkgdbh.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index ba67328..5d28e5f 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1267,7 +1267,11 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	}
 
 	getcwd(buf, sizeof(buf));
-	chdir(m_root.c_str());
+	if (chdir(m_root.c_str()) == -1)
+	{
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+		treatErrors(m_root);
+	}
 
 	// Only the script of this package is run
 	bool found = false;
@@ -1331,7 +1335,11 @@ void pkgdbh::installArchivePackage
 			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 			treatErrors(filename);
 		}
-	chdir(m_root.c_str());
+	if (chdir(m_root.c_str()) == -1)
+		{
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+			treatErrors(m_root);
+		}
 	absm_root = getcwd(buf, sizeof(buf));
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
-- 
2.43.0

