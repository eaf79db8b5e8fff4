fixed("C15", "initialise the scalar", "members of pkginfo, pkgdbh, db and pkg read before they were written (a bool of value 190)")
fixed("C20", "cards upgrade --root", "cards upgrade --root X worked on the database of <X>var/lib/pkg instead of X/var/lib/pkg")
fixed("C08", "clean up .META", "pkgadd -r removed /.META, /.MTREE, /.PRE and /.POST of the host")
fixed("C01", "make a relative", "pkgadd -r with a relative root: package read or installed relative to the changed directory")
fixed("C01", "come back to the caller's", "after an installation with -r further relative package names were looked up below the root")
fixed("C12", "run a post-install tool only", "ldconfig and the like ran for files their rule does not match, and not for those it matches")
fixed("C12", "a script killed by a signal", "a pre or post script ended by a signal, or not started at all, counted as successful")
fixed("C09", "one lock from the reading", "the lock was released between reading the database and changing it: of two concurrent operations one record was lost")
fixed("C01", "a member whose name does not", "with a non-ASCII name in locale C the rest of the archive was not installed, and success reported")
fixed("C13", "refuse a truncated", "a truncated or damaged archive was installed in part, with success reported or the old version already gone")
fixed("C01", "read lines of any length", "a line of META or files longer than 8191 bytes was cut, and the last line without a newline lost")
fixed("C15", "a malformed dependency", "a malformed R or r line in META ended every command with an uncaught exception")
fixed("C01", "a dependency with a name of one", "runtime dependencies with names of up to three characters were dropped")
fixed("C10", "a record interrupted before", "a record without its list of files, left by a killed installation, made every command fail")
fixed("C03", "a file where the package needs", "a file in the place of a directory of the package was not a conflict: the installation broke in the middle")
fixed("C02", "a refused installation runs no", "an installation refused for a conflict ran ldconfig and the like for the files it did not install")
fixed("C10", "replace the meta data with the mark", "a kill while the mark of a dependency was written left the record without meta data")
fixed("C11", "an installation which can not write", "when .META could not be written the installation recorded a truncated one and reported success")
fixed("C11", "an error reading the database", "an I/O error in the database: endless loop, or META taken for empty and replaced, or rules ignored")
fixed("C17", "read the dynamic section", "out of bounds reads on a crafted ELF file, 32 bits ELF files never read, strings of the wrong table, a FIFO blocked")
fixed("C14", "pkginfo -L, -R, -b and -d of an alias", "pkginfo -L and -R read the host's files with -r; an alias gave nothing with -L, -R and 0 with -b")
fixed("C17", "match a runtime library", "libfoo.so.1 reported as provided by the package of libfoo.so.11, or of a directory with its name")
fixed("C14", "sizes of packages of 4 GiB", "an installed size of 2 GiB and more was shown wrong (atoi into an unsigned int)")
fixed("C14", "the name of an installed package is no alias", "an installed package was shadowed by another one with an alias of the same name: pkginfo answered for the wrong package")
fixed("C08", "members, hard links and names of a package", "member names with .., hard links to absolute paths or through .., and package names with / read and wrote outside the installation root")
fixed("C02", "an alias of an installed package is no package", "pkgadd -u -f of a package whose name is only an alias of another one failed in the middle, after deleting the conflicting files")
fixed("C17", "end the file name when it has", "a file name reaching the maximal length was used without its terminating zero")
fixed("C09", "read the database under the lock", "an upgrade at the same time as another one of the package was refused with \"previously not installed\": the database was read without the lock, between the removal and the writing of the record")
fixed("C02", "pkgrm of a mere alias", "pkgrm of a name that is only an alias failed with an unreadable record instead of saying that the package is not installed")
fixed("C18", "a tab separates a key", "in cards.conf a tab between key and value only separated them when a blank followed")
fixed("C23", "what a collection lists about one package", "fields missing in one entry of .REPO were those of the entry before it")
fixed("C18", "the directory listed first", "the package of the directory listed last in cards.conf was taken, against the documentation")
fixed("C21", "download and verify the packages of every collection", "packages of a dir line with its own url were neither downloaded nor verified when no global url was set")
fixed("C18", "cyclic dependencies do not make", "two packages which need each other made cards install run forever")
fixed("C18", "a package asked for, or installed already", "a package asked for, or installed by hand before, was marked as a dependency when another package of the same command needed it: cards remove then removed it as an orphan")
fixed("C19", "cards remove of an alias", "an alias of a needed package was not refused, and then failed in the middle")
fixed("C19", "cards remove removes each of the sets", "only the first set was removed, and unknown arguments passed silently")
fixed("C19", "cards remove refuses a package of the base system before", "other packages were removed before the refusal")
fixed("C19", "cards remove removes the packages of a group, not", "a package with an alias like <name>.<group> was removed")
fixed("C20", "the percentage of obsolete packages", "division by zero without installed packages, overflow with many")
fixed("C20", "cards diff counts the size", "sizes and build dates of cards diff were not initialised")
fixed("C20", "what an upgrade adds to satisfy", "new dependencies were installed as if asked for and never removed again")
fixed("C21", "a signature which is not hexadecimal", "a signature with other characters terminated cards with an uncaught exception")
fixed("C23", "a collection without packages, or not there", "an empty or missing .REPO hid the collections after it from list and search")
fixed("C23", "cards search does not take the url", "a package without URL or packager was found by those of the package before it")
fixed("C23", "cards search finds sets and categories", "documented fields were not searched, capital letters never matched")
fixed("C23", "cards query -b does not take", "patterns matching / reported a file without a name for every package")
fixed("C23", "cards files -b lists", "files of a package whose name ends alike were listed")
fixed("C19", "a package which was just removed", "the package removed last was taken for an installed one again: cards remove of a group could fail in the middle, trying to remove it twice")
fixed("C19", "a package which needs itself", "a package with a dependency on itself was refused as needed by itself: it could never be removed")
fixed("C22", "cards sync fails when the meta data", "damaged, cut, empty or multi-frame .REPO.zst/.FILES.zst: cards sync reported success with the old, a partial or no list of packages, or was killed by the announced size")
fixed("C22", "an empty file on a mirror", "an empty file on the mirror left the old one in the depot; a download which could not be written counted as successful")
fixed("C16", "cards without a command", "cards without arguments dereferenced argv[1]; exceptions not derived from the one main catches ended with std::terminate")
fixed("C20", "the database knows an obsolete package", "cards upgrade removed the record of an obsolete package before its files: interrupted in between the files belonged to nobody")
fixed("C22", "a dir line without a directory", "cards purge with a line \"dir name|url\" deleted every file of the system the user may delete")
fixed("C16", "a directory to create may have", "a directory with a long path in cards.conf overflowed a buffer")
fixed("C24", "nothing of one Pkgfile", "fields missing in one Pkgfile were those of the one read before it")
fixed("C24", "a port of several collections", "of a port in several collections a mixture was taken")
fixed("C24", "neither a comment nor what follows", "words of comments and of the lines after the list were taken for dependencies")
fixed("C24", "a dependency on a subpackage", "dependencies on subpackages were missing, and ports with a dot in the name never found")
fixed("C24", "deptree shows all", "deptree of a port which lists itself ended in the middle")
fixed("C24", "depends and deptree tell", "depends and deptree of an unknown port printed nothing and succeeded")
fixed("C16", "a date too far away", "a build date beyond the range of the calendar crashed the display of a package")
fixed("C24", "tabs separate", "dependencies separated by tabs were taken for one with a strange name")
fixed("C25", "an interrupted installation does not leave", "killed between META and files, an installation left a record which counted as complete and up to date, without a list of files")
fixed("C25", "an upgrade keeps the record", "killed in an upgrade, a package was not known any more, and a repeated cards upgrade did not bring it back")
fixed("C25", "install completes the interrupted", "cards install of a set or collection left a package without META as it was")
fixed("C26", "a configuration which cannot be read", "cards.conf not readable (too many open files, I/O error): sync and upgrade did nothing and reported success")
fixed("C26", "purge tells what it could not", "purge passed over unreadable directories and files it could not remove in silence")
fixed("C26", "the index of a collection which cannot", "an I/O error on a .REPO made an upgrade replace or remove the packages of that collection")
fixed("C27", "cards repo fails when a signature is wrong", "cards repo ended at the first wrong signature, told one only, and reported success")
fixed("C27", "cards repo fails when it could not publish", "an unknown collection, a directory that could not be written or read: cards repo reported success")
fixed("C27", "cards repo replaces what is published", "an archive, key or system call that failed, or a kill, left a published index cut short")
fixed("C27", "the private key of cards keys", "the private key was readable by others for a moment, and a failing write of it was not told")
fixed("C27", "an archive of which the metadata cannot", "a damaged archive was signed and published with the part of its file list that could be read")
fixed("C28", "pkgmk does not lose lib/pkgconfig", "with the group lib before devel (or without devel) the files of lib/pkgconfig were in no package")
fixed("C28", "pkgmk removes libtool files before", "PKGMK_KEEP_LA_LIBS=no: .la files were packed into the package of the group lib nevertheless")
fixed("C28", "pkgmk fails when it refuses what was built", "a port that installs into /sbin or /usr/sbin: ERROR and exit status 0")
fixed("C28", "the package of a locale is no alias", "the package of a locale claimed the alias of the whole package")
fixed("C28", "a function of a locale which fails", "a locale function of a port that fails was taken for a success")
fixed("C28", "pkgmk leaves the entries of other ports", "building foo removed or rewrote the entries of foo-bar in the index")
fixed("C28", "a build which fails leaves the packages", "a failed build left packages without metadata that counted as up to date, and the old ones were gone")
fixed("C28", "compressed packages are up to date", "with PKGMK_COMPRESS_PACKAGE each pkgmk built an unchanged port again")
fixed("C29", "pkgmk fails when it cannot complete a package", "a failing bsdtar or cp: a package without its files, scripts or metadata, and exit status 0")
fixed("C29", "pkgmk fails when it cannot compress", "a failing or interrupted compression was not told, and left an incomplete package for good")
fixed("C29", "pkgmk replaces the index when it is complete", "an interruption or an error while the index was updated left a cut entry, which swallowed the next one")
fixed("C29", "pkgmk does not pack the directory it happens", "with a directory it could not enter or empty pkgmk packed the one it happened to be in")
fixed("C29", "pkgmk fails when it cannot tell the dependencies", "pkginfo or sha512sum failing: packages without their dependencies or hash, and exit status 0")
fixed("C29", "pkgmk removes the old package before", "killed while replacing packages with -f, an up to date package stood there without some of its subpackages, for good")
fixed("C29", "pkgmk fails when it cannot put lib/pkgconfig", "a failing mkdir or mv: lib/pkgconfig in no package, and exit status 0")
fixed("C29", "pkgmk fails when it cannot tell the size", "a failing tool: packages without a size, and exit status 0")
fixed("C30", "the log of a build has all its output", "what a short recipe printed was neither in the log nor on the terminal")
fixed("C30", "cards create knows the packages it has installed itself", "packages of the base installed twice; stale files of the former build left behind")
fixed("C30", "cards create refuses an unknown port before it removes", "an unknown port: all packages outside the base removed, then the error")
fixed("C30", "cards create --dry does not build the port", "--dry PORT built the port")
fixed("C30", "cards create does not build a port whose dependencies", "a dependency without a package was left out silently")
fixed("C18", "a set has no packages of locales", "a set that had packages of locales: they were installed as packages of the set, whether or not the locale is configured")
fixed("C28", "the devel packages of names like foo-bar", "R lines of .devel packages whose name goes on after a - _ or + stayed in .META")
fixed("C31", "the architecture of the machine is shown", "without any line of configuration cards config told no architecture")
fixed("C18", "with --root, cards install and upgrade look", "cards install/upgrade --root took what the running system has for installed: dependencies left out, upgrades of the wrong packages, or failing without a database on /")
fixed("C33", "an installation keeps its archive", "two cards upgrade/install at once: the purge of one removed the archive the other was installing after it had removed the old files: a record without files")
fixed("C33", "what is downloaded takes its place", "two syncs or downloads at once wrote into the same file: sync failed (the file is not complete, cannot rename), and a verified archive could be cut under an installation")
fixed("C33", "cards list and search read the metadata", "list -b or search while sync replaced the index used the size of the old one: packages missing, or SIGBUS")
fixed("C34", "a signal ignored by the caller", "the end of the lock set HUP, INT, QUIT, TERM to their default: nohup cards upgrade was ended by the hangup between two packages")
fixed("C34", "the end of the reader of its output", "pkgadd -p or cards upgrade with its output in a pipe whose reader ended was killed by SIGPIPE with half of the files of a package")
fixed("C30", "cards create holds the lock", "cards create removed the base system's other packages and installed the dependencies without the lock on the database")
fixed("C20", "the size of archives of 2 GB", "archive sizes of 2 GB and more were taken for an int by cards info -b, diff and upgrade, and written modulo 4 GB by cards base")
fixed("C15", "a record of the database that is a link", "a link to / in the place of the record of a package: pkgadd -f -r wrote META and files into the / of the host")
