#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=["src/"+f for f in files],
      state=[dict(name=a,meaning=b) for a,b in state],
      mechanism=[dict(name=a,where=b) for a,b in mech])))
T="The repository's tests only construct objects and call a getter or two; "
p("C01","Removing a package deletes exactly the files no other package owns",
 "Removing an installed package asks the filesystem to delete every file that package recorded, that exists and that no other installed package records, and asks for nothing else to be deleted. Files are deleted before the directories that contain them. Afterwards the package is gone from the in-memory list of installed packages and every other package's record is unchanged.",
 ["inputs","histories"],"every set of installed packages, every overlap of their file lists, every subset of files present on disk",
 T+"none removes a package, and no finite set of samples covers every overlap of file lists.",
 ["pkgdbh.cxx","pkgrm.cxx"],[("removePackageFiles(name)","src/pkgdbh.cxx"),("pkgrm::run","src/pkgrm.cxx")],
 [("m_listOfPackages","installed packages and their file lists"),("m_filesList","files about to be deleted")])
p("C02","An upgrade never deletes kept files or files of other packages",
 "When the old version of a package is cleared away during an upgrade, exactly those of its recorded files are deleted that exist, that no other installed package records and that are not on the keep list. Files are deleted before their directories, and every other package's record is unchanged.",
 ["inputs","histories"],"every set of installed packages, every keep list, every overlap",
 T+"none upgrades a package.",
 ["pkgdbh.cxx","pkgadd.cxx"],[("removePackageFiles(name, keep)","src/pkgdbh.cxx"),("pkgadd::run","src/pkgadd.cxx")])
p("C03","File conflicts are reported exactly",
 "The conflicts reported for a package about to be installed are exactly those of its files that are not directory entries, that are recorded by a different installed package or already exist under the root, and that the installed version of the same package does not itself record. Computing them changes neither the database nor the filesystem.",
 ["inputs","histories"],"every installed set, every new file list, every state of the filesystem",
 T+"none computes a conflict list.",
 ["pkgdbh.cxx"],[("getConflictsFilesList","src/pkgdbh.cxx")])
p("C04","The last matching rule decides what is installed and what is kept",
 "A file of a package is left out of the installation, and out of the package's recorded file list, exactly when the last INSTALL rule matching it says NO. A file is put on the keep list of an upgrade exactly when the last UPGRADE rule matching it says NO. A file that no rule of that kind matches is installed and is not kept.",
 ["inputs","configurations"],"every rule list, every file list, every regular-expression matching relation",
 T+"none loads a rule.",
 ["pkgadd.cxx","pkgdbh.cxx"],[("applyInstallRules","src/pkgadd.cxx"),("getKeepFileList","src/pkgadd.cxx"),("getInstallRulesList","src/pkgadd.cxx"),("checkRuleAppliesToFile","src/pkgdbh.cxx")])
p("C05","Kept files keep their content; the package's copy goes to the rejected area",
 "While a package is unpacked, an archive entry excluded by an INSTALL rule is not written anywhere. An entry that is on the keep list and already exists under the root is never written at its own path: it is written under the rejected area, and that copy is removed again only if its type, permissions and owner equal the existing one's and (for a non-directory) it is empty or has equal content. Every other entry is written at its own path under the root, and one failing entry does not stop the remaining ones.",
 ["inputs","fault_sequences","configurations"],"every archive, keep list, exclusion list and pre-existing filesystem, every extraction failure",
 T+"none unpacks an archive.",
 ["pkgdbh.cxx","file_utils.cxx"],[("installArchivePackage","src/pkgdbh.cxx"),("removeFile","src/file_utils.cxx")])
p("C06","Post-install triggers are queued exactly as the rules say",
 "For every file of an installed package, the trigger of the last matching trigger rule (any rule that is neither INSTALL nor UPGRADE) is queued exactly when that rule says YES; a file that no trigger rule matches queues nothing. The library-cache trigger is queued without a path, every other trigger with the file's path, and each distinct entry is queued once.",
 ["inputs","configurations"],"every rule list and file list",
 T+"none loads a rule or installs a file.",
 ["pkgadd.cxx"],[("applyInstallRules","src/pkgadd.cxx"),("getPostInstallRulesList","src/pkgadd.cxx")],
 [("m_postInstallList","queued triggers")])
p("C07","A forced install takes conflicting files away from every other package",
 "When an install is forced over conflicts, each conflicting file disappears from every installed package's recorded list, in memory and in its record on disk, and no other recorded entry changes. Every conflicting file that exists and is not on the keep list is deleted, contents before directories, and nothing else is.",
 ["inputs","histories"],"every installed set, conflict set and keep list",
 T+"none forces an install.",
 ["pkgdbh.cxx"],[("removePackageFilesRefsFromDB(files, keep)","src/pkgdbh.cxx")])
p("C08","A package's file record is replaced atomically and durably",
 "Writing a package's file record creates a separate temporary file, writes the complete list one path per line in sorted order, flushes and syncs it, and only then renames it over the record; the record itself is never opened for writing, truncated or deleted. If creating, writing, syncing or renaming fails, an error is raised and the previous record is still in place, so after a crash at any point the record is either the complete old or the complete new list.",
 ["crash_points","fault_sequences","inputs"],"every file list, every failing system call, every crash point between two calls",
 T+"none writes the database and none injects a failing system call.",
 ["pkgdbh.cxx"],[("addPackageFilesRefsToDB","src/pkgdbh.cxx")])
p("C09","Installed-package records load back as they were written",
 "Loading the database lists exactly the non-hidden entries of the database directory as packages; each package's file list is exactly the lines of its own record up to end of file, and its description, version, release, build date, collection, architecture, group, sets, categories, aliases, dependencies and automatic-install mark come from its own metadata lines only. A package whose metadata has no automatic-install line is loaded as installed on request.",
 ["inputs","histories"],"every database content",
 T+"the database tests load whatever the host has, which is an empty or absent database.",
 ["pkgdbh.cxx","file_utils.cxx"],[("buildDatabase","src/pkgdbh.cxx"),("getListOfPackagesNames","src/pkgdbh.cxx"),("parseFile","src/file_utils.cxx")])
p("C10","A refused install changes nothing",
 "Adding a package is refused with an error, before any file is extracted or deleted, any script is run or any record is written, when the caller is not root, the archive is empty, has no package name or is for another architecture on the real root, the package is already installed (itself, or through an alias of an installed package) and no upgrade was requested, or an upgrade was requested and it is not installed itself. Conflicting files without force are refused before any file is deleted, any payload is extracted or any record is written (the pre-install script, unpacked, run and removed before, is no such change). Opening the database, which clears left-over metadata files of the root, is not part of adding.",
 ["inputs","histories","configurations"],"every archive, option combination and installed set",
 T+"none runs the installer.",
 ["pkgadd.cxx","pkgdbh.cxx"],[("pkgadd::run","src/pkgadd.cxx"),("openArchivePackage","src/pkgdbh.cxx"),("pkgadd::parseArguments","src/pkgadd.cxx")])
p("C11","Every change to files and records happens under the exclusive lock",
 "Installing, upgrading and removing delete or extract package files and write or delete package records only while the exclusive lock on the package database of the same root is held. Acquiring the lock either succeeds or raises an error (the lock is never assumed), and it is released when the operation ends, normally or by an error. Unpacking and deleting the pre-install script before the installation is not such a change, and assembling a root image that is to have no package database (the no-meta option of create) has no database to lock; neither is covered.",
 ["schedules","histories","fault_sequences"],"every path through install, upgrade and remove, including error exits",
 T+"none takes the lock and none runs two processes.",
 ["lock.cxx","pkgadd.cxx","pkgrm.cxx"],[("cards::lock","src/lock.cxx"),("pkgadd::run","src/pkgadd.cxx"),("pkgrm::run","src/pkgrm.cxx")])
p("C12","Operations on an alternative root stay inside it",
 "When an alternative root is selected, every path that is created, renamed, deleted or written by the package database operations (metadata cleanup at start, file and record removal, record writing, metadata move, script cleanup) lies under that root. The programs triggered after an installation are the root's own, and the linker cache rebuilt is that of the root. The rest of the filesystem is never modified.",
 ["inputs","configurations"],"every root, package name and file list",
 T+"all run with the default root.",
 ["pkgdbh.cxx","pkgadd.cxx","file_utils.cxx"],[("cleanupMetaFiles","src/file_utils.cxx"),("moveMetaFilesPackage","src/pkgdbh.cxx"),("removePackageFilesRefsFromDB","src/pkgdbh.cxx")])
p("C13","The automatic-install mark is set and kept exactly when it should be",
 "A freshly installed package is marked as automatically installed exactly when the caller requested the mark, never by accident; upgrading preserves the mark a package had. The mark request is consumed by one completed installation and does not leak to the next package. (A package as delivered carries no mark of its own.)",
 ["histories","inputs"],"every sequence of installs and upgrades in one process",
 T+"none installs two packages in a row, none upgrades.",
 ["pkgdbh.cxx","pkgadd.cxx"],[("moveMetaFilesPackage","src/pkgdbh.cxx"),("setDependency / checkDependency","src/pkgdbh.cxx"),("pkgadd::run","src/pkgadd.cxx")],[("m_dependency","mark the next installed package as automatic")])
p("C14","Packages still needed by a manually installed package are never orphans",
 "The set of needed packages contains every installed package that is not marked automatic and is closed under recorded dependencies: if a needed package depends on another, by its name or one of its aliases, that one is needed too, through chains of any length and through cycles. Nothing else is in it.",
 ["inputs","histories"],"every dependency graph, including cycles",
 T+"none walks a dependency graph.",
 ["pkgrm.cxx","pkgdbh.cxx"],[("getListOfManInstalledPackages","src/pkgrm.cxx"),("getDirectDependencies","src/pkgrm.cxx"),("buildSimpleDependenciesDatabase","src/pkgdbh.cxx")])
p("C15","The up-to-date verdict follows name, version, release, build and collection",
 "A candidate package counts as up to date exactly when a package of that name is installed with the same version, the same release and a build date not older than the candidate's, and their collections are equal unless either is unset. A dependency requirement counts as satisfied exactly when its build date is set, the package is installed and the installed build date is not older.",
 ["inputs"],"every installed set and candidate",
 T+"none compares a candidate with an installed package.",
 ["pkgdbh.cxx"],[("checkPackageNameUptodate","src/pkgdbh.cxx"),("checkPackageNameBuildDateSame","src/pkgdbh.cxx")])
p("C16","The upgrade report classifies every installed package once and correctly",
 "Each installed package gets exactly one class: unchanged when the repository's build is not newer (an entry without a build date counts as newer); new build when it is newer with equal version and release; out of date when it is newer with a different version or release; obsolete when it is in no repository and was installed automatically; unmaintained when it is in no repository and was installed on request. Each counter equals the number of packages in its class and the total of pending changes is the sum over all classes other than unchanged.",
 ["inputs"],"every installed set and repository content",
 T+"none computes the report.",
 ["diff.cxx"],[("diff::diff","src/diff.cxx"),("diff::size","src/diff.cxx")])
p("C17","Upgrade only removes obsolete automatic packages, only updates stale ones",
 "An upgrade schedules for deletion exactly the installed packages that are in no repository and are marked automatic, and schedules for update exactly the installed packages in a repository whose build there is newer, plus group sub-packages offered for installed main packages that are missing or stale. A package installed on request is never scheduled for deletion.",
 ["inputs"],"every installed set, repository content and option set",
 T+"none runs an upgrade.",
 ["upgrade.cxx"],[("upgrade::upgrade","src/upgrade.cxx")])
p("C18","No remote package is accepted without a valid signature",
 "When a repository URL is configured (option url), a package whose dependencies have to be read from its archive is accepted only after its hash was recomputed from the file on disk and its signature over that hash verified against the collection's public key; if verification fails, an error is raised and nothing is added to the list of packages to install. Hash comparison ignores letter case and nothing else, and signature verification reports success only when the crypto library says so.",
 ["inputs","fault_sequences"],"every repository index, every archive content, every result of the crypto library",
 T+"none verifies a signature.",
 ["pkgrepo.cxx","string_utils.cxx"],[("generateDependencies","src/pkgrepo.cxx"),("checkSign","src/pkgrepo.cxx"),("checkHash","src/pkgrepo.cxx")])
p("C19","Each repository entry is built from its own stanza only",
 "In a repository index, every value recorded for a package comes from that package's own stanza (or the collection's configuration), never from a stanza before it; a tag a stanza does not contain leaves the field at its default. Each tag sets its own field and no other. (A sub-package for which neither gives a collection takes that of its main package.)",
 ["inputs"],"every repository index",
 T+"the repository test parses an absent index.",
 ["pkgrepo.cxx"],[("pkgrepo::parse","src/pkgrepo.cxx")])
p("C20","A port's build level is above the level of everything it depends on",
 "After levels are computed, every port that got a level has a level strictly greater than each port it depends on (itself excepted), and a port without such dependencies has level zero. A dependency naming an unknown port is reported, once for that dependency, and does not influence levels.",
 ["inputs"],"every set of ports and acyclic dependency graph",
 T+"only the shape of one host-dependent tree is touched.",
 ["pkgfile.cxx"],[("confirmDependencies","src/pkgfile.cxx"),("generate_level","src/pkgfile.cxx")])
p("C21","A failed or killed child process is never reported as success",
 "Running a command or a package script returns zero only if the child was started, waited for and exited with status zero. A non-zero exit status is returned as is; a failing fork, a failing wait and a child killed by a signal are reported as failure.",
 ["fault_sequences","inputs"],"every wait status, every failure of fork and wait",
 T+"none runs a child process.",
 ["process.cxx"],[("process::exec","src/process.cxx"),("process::execShell","src/process.cxx")])
p("C22","Mode bits are rendered the way ls does",
 "For every file mode the ten-character string names the file type (- d l c b s p, or ? for an unknown type), then for user, group and other the read, write and execute letters, with s or S for set-user-id and set-group-id and t or T for sticky, upper case exactly when the execute bit is clear.",
 ["inputs"],"all 2^32 mode values",
 T+"no mode is rendered, and 2^32 values cannot be sampled.",
 ["string_utils.cxx"],[("mtos","src/string_utils.cxx")])
p("C23","Text helpers compute exactly their documented result for every string",
 "Splitting on a delimiter character yields exactly the maximal non-empty runs without that character, in order; stripping removes exactly the leading and trailing white space (a string of only white space becomes empty); case conversion maps each character and keeps the length; a case-insensitive prefix test holds exactly for prefixes up to case. The part after the first delimiter and the part before the first or last delimiter are returned exactly, with the documented result when the delimiter is absent, and a cleaned path is free of doubled slashes and otherwise unchanged.",
 ["inputs"],"every string and delimiter",
 T+"none checks any text helper on more than a fixed string.",
 ["string_utils.cxx","file_utils.cxx"],[("parseDelimitedVectorList / parseDelimitedListList","src/string_utils.cxx"),("stripWhiteSpace, convertToLowerCase, startsWithNoCase, getValue*","src/string_utils.cxx"),("trimFileName","src/file_utils.cxx")])
p("C24","The rules file is loaded completely and in order, or rejected",
 "Loading the rules file yields one rule per line that is neither empty nor a comment, in file order, with the event, pattern and YES/NO action of that line. A line that is too long, does not consist of exactly three words, or has an unknown event or action raises an error instead of being skipped or guessed.",
 ["inputs","configurations"],"every rules file",
 T+"none loads a rules file.",
 ["pkgdbh.cxx"],[("readRulesFile","src/pkgdbh.cxx")])
p("C25","Removing a file prunes only emptied parents below the base directory",
 "Removing a file with parent pruning deletes the file and then, one after another, its parent directories as long as each deletion succeeds, stops at the first deletion that fails, and never deletes the base directory or asks for the deletion of anything that is not the file or one of its parents.",
 ["inputs","fault_sequences"],"every path, base directory and every pattern of failing deletions",
 T+"none removes a file.",
 ["file_utils.cxx"],[("removeFile","src/file_utils.cxx")])
p("C26","Two files count as equal only if they really are",
 "Two paths compare equal only if both can be examined, have the same kind, and are regular files with byte-for-byte the same content and length, or symbolic links with the same target, or devices of the same type with the same device number; permission comparison is equality of mode, owner and group. Any error while examining them counts as different.",
 ["inputs","fault_sequences"],"every pair of files, every read split, every failing call",
 T+"none compares files.",
 ["file_utils.cxx"],[("checkFilesEqual","src/file_utils.cxx"),("checkPermissionsEqual","src/file_utils.cxx")])
p("C27","Purging deletes only downloaded files of remote collections",
 "Purging the download cache deletes only files found inside the local directory of a configured collection that has a URL. Collections without a URL are left untouched, whatever the order of the collections in the configuration.",
 ["inputs","configurations"],"every configuration",
 T+"none purges.",
 ["conf.cxx"],[("conf::purge","src/conf.cxx")])
p("C28","Base-system and in-use packages are refused for removal",
 "Removing by name is refused with an error, before anything is deleted, when the name is the base collection or is a recorded dependency of an installed package, under that name or under the name it is an alias of. A selected package that belongs to the base collection is refused unless the removal is forced.",
 ["inputs","configurations"],"every installed set, argument list and option set",
 T+"none removes a package.",
 ["remove.cxx"],[("remove::remove","src/remove.cxx")])
p("C29","A package's own metadata is read from its archive tags only",
 "The name, version, release, architecture, collection, group, build date, description and URL reported for an archive are the remainder of the first metadata line carrying that field's tag, and sets, categories, aliases and dependencies are exactly the remainders of all lines carrying theirs; a missing tag gives the field's default. No field is ever taken from a line with another tag.",
 ["inputs"],"every archive metadata",
 T+"none opens an archive.",
 ["archive.cxx"],[("archive accessors","src/archive.cxx")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
