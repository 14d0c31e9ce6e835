# What each check runs. jobs: harness, parameters (common / quick / thorough), witness points that must be reached.
CHECKS = {}
def check(pid, jobs, bounds, bounds_thorough=None, assumptions=(), **k):
    CHECKS[pid] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions), **k)
    if bounds_thorough: CHECKS[pid]["bounds_thorough"] = bounds_thorough
def J(h, witness=(), memory=False, quick=None, thorough=None, **params): return dict(h=h, witness=list(witness), memory=memory, quick=quick or {}, thorough=thorough or {}, params=params)
T = lambda j: dict(j, tiers=("thorough",))   # a job only the thorough tier runs

NAMES = "file names: one symbolic byte (every byte except NUL, newline, '/' and '.') below a fixed directory prefix, so that every coincidence between the lists of the packages is covered"
# ---- removal
RM = [J("rm", [1, 2, 3], np=2, nq=2, nr=1, thorough=dict(np=3, nq=2, nr=2)), J("rm", [1, 2, 3, 4, 5], np=1, nq=1, nr=1, sub=1, kinds=1), J("rm", [1, 2, 3], np=1, nq=1, nr=1, metas=1, root=1), J("rm", [1, 2, 3], np=1, nq=1, nr=0, bulk=16, long=1), T(J("rm", [1, 2, 3], np=3, nq=3, nr=1)), T(J("rm", [1, 2, 3, 4, 5], np=2, nq=1, nr=1, sub=1, kinds=1, root=1, timeout=600))]
RMB = "three installed packages with up to 2 files of symbolic name each (thorough 3) plus, in one job, a directory tree with shared and foreign contents, in one job objects of five kinds (file, links, fifo, missing), and in one job 16 further shared files; other package plain / automatic / grouped / aliased / dependent; alternative root or not; " + NAMES
UPS = [J("inst", [2, 6, 7, 8, 9], mode=2, shared=1, no=2, nn=1, nq=2, nz=0), J("inst", [2, 8], mode=2, shared=1, no=1, nn=1, nq=1, nz=0, metas=1, root=1, long=1, qnames=1), J("inst", [2, 10], mode=1, nn=2, nq=1, n3=1)]
check("C01", RM + UPS, RMB + "; upgrades (old version up to 2 files, some shared) and forced installations next to other packages")
check("C02", RM + [J("inst", [2, 3, 4, 9], mode=2, nr=1, no=2, nn=1, nq=0, nz=0), J("inst", [2, 9], mode=2, no=2, nn=1, nq=1, gone=1), J("inst", [2, 9], mode=2, no=2, nn=2, nq=1), J("inst", [9], mode=3, no=2, nn=1, nq=1, root=1, long=1), J("inst", [2, 9], mode=2, no=2, nn=1, nq=1, nz=0, dirs=1)], RMB + "; obsolete files of an upgrade (old version with 2 files, new with 2)")
INS = "pkgadd and cards install; new package with up to 2 files (thorough 3), next to packages with up to 2 files, one unowned object of five kinds, an old version with up to 2 files; " + NAMES
check("C03", [J("inst", [1, 2], mode=0, nn=2, nq=2), J("inst", [1, 2], mode=0, nn=2, nq=1, n3=1, zkinds=1), J("inst", [1, 2], mode=2, no=1, nn=2, nq=1, zkinds=1), J("inst", [1, 2], mode=0, nn=1, nq=1, n3=1, metas=1, root=1, long=1, zkinds=1), J("inst", [1, 2, 3], mode=0, nr=2, nn=1, nq=1, ev=0), J("inst", [1, 2], mode=0, nn=1, nq=1, qnames=1, zkinds=1), J("inst", [1, 2], mode=0, nn=1, nq=1, qnames=1, qgone=1), J("inst", [1, 2], mode=0, nn=2, nq=1, zkinds=1, cards=1), J("inst", [1, 2], mode=2, no=1, nn=2, nq=1, cards=1), T(J("inst", [1, 2], mode=0, nn=3, nq=2, n3=1)), T(J("inst", [1, 2], mode=2, no=2, nn=2, nq=2))], INS)
check("C04", [J("inst", [2, 3, 4], mode=2, nr=2, nn=1, nq=0, no=1, nz=0), J("inst", [2], mode=2, no=2, nn=1, nq=1, gone=1), J("inst", [2], mode=0, nn=2, nq=1, kinds=1), J("inst", [2], mode=1, nn=2, nq=1, n3=1, kinds=1), J("inst", [2], mode=2, no=1, nn=2, nq=1, kinds=1, root=1), J("inst", [2, 3], mode=0, nr=2, nn=1, nq=0, nz=1, kinds=1, long=1), J("inst", [2, 3], mode=3, nr=1, nn=2, nq=1, no=1, nz=0), J("inst", [2, 11, 12], mode=0, nn=1, nq=1, ign=1), J("inst", [2, 11, 12], mode=2, no=1, nn=1, nq=1, nz=0, ign=1), J("inst", [2], mode=0, nn=2, nq=1, kinds=1, cards=1), J("inst", [2], mode=3, no=1, nn=2, nq=1, kinds=1, cards=1), T(J("inst", [2], mode=0, nn=3, nq=1, kinds=1)), T(J("inst", [2], mode=3, no=2, nn=2, nq=2))], INS + "; files of four kinds (plain, set-uid with foreign owner, symbolic link, empty)")
RL = "up to 3 rules (thorough 4) with symbolic event and action, every matching behaviour of their patterns explored (matching is an uninterpreted predicate of pattern and name); "
check("C05", [J("inst", [2, 4], mode=3, nr=1, nn=1, nq=1, no=1, nz=0, okinds=1, qnames=1, ev=1), J("inst", [2, 4, 5], mode=2, nr=2, nn=1, nq=1, no=1, nz=0, noise=1), J("inst", [2, 4], mode=2, nr=3, nn=1, nq=0, no=1, nz=0, ev=1), J("inst", [2, 4], mode=3, nr=1, nn=2, nq=1, no=1, nz=0, root=1, long=1), J("inst", [2, 4, 11, 12], mode=2, nr=2, nn=1, nq=0, no=1, nz=0, ign=1, ev=1), J("inst", [2, 4, 11, 12], mode=3, nr=1, nn=1, nq=1, no=1, nz=0, ign=1, ev=1), J("inst", [2, 4, 5], mode=2, nr=2, nn=1, nq=1, no=1, nz=0, cards=1), J("inst", [2, 4], mode=3, nr=1, nn=2, nq=1, no=1, nz=0, root=1, cards=1), T(J("inst", [2, 4], mode=3, nr=2, nn=1, nq=1, no=1, nz=1)), T(J("inst", [2, 4], mode=2, nr=4, nn=1, nq=0, no=1, nz=0, ev=1))], RL + INS)
check("C06", [J("inst", [1, 2, 3], mode=0, nr=3, nn=1, nq=1, nz=0, ev=3), J("inst", [2, 3], mode=0, nr=3, nn=1, nq=0, nz=1, ev=0, noise=1), J("inst", [2, 3, 4], mode=2, nr=2, nn=2, nq=0, no=1, nz=0, ev=2), J("inst", [2, 3], mode=0, nr=2, nn=1, nq=0, nz=1, ev=0, cards=1), T(J("inst", [2, 3, 4], mode=2, nr=3, nn=1, nq=0, no=1, nz=0, ev=3)), T(J("inst", [2, 3], mode=0, nr=4, nn=1, nq=0, no=0, nz=1, ev=0))], RL + INS)
check("C07", [J("inst", [2, 10], mode=1, nn=2, nq=2, n3=1), J("inst", [2, 10], mode=1, nn=1, nq=1, n3=1, metas=1, root=1, long=1, multi=1, qnames=1), J("inst", [2, 10], mode=1, nn=1, nq=2, n3=2, multi=1), J("inst", [2, 10], mode=3, no=1, nn=2, nq=2), J("inst", [2, 3, 10], mode=3, nr=1, nn=1, nq=1, no=1, nz=0), J("inst", [2, 10], mode=1, nn=1, nq=1, n3=1, multi=1, cards=1, root=1), J("inst", [2, 10], mode=3, no=1, nn=2, nq=1, cards=1), T(J("inst", [2, 10], mode=1, nn=3, nq=2, n3=1)), T(J("inst", [2, 10], mode=3, no=2, nn=2, nq=2, n3=1))], INS)
# ---- cards remove
RMV = "up to 3 packages with every dependency graph, up to 4 (thorough 5) whose packages depend on at most one other (cycles and self-references included), each manual or automatic, in the base collection or not, with an alias, a sub package in a configured group; one or two names, an alias, a whole collection or a set of packages (before or after a name) requested, with and without force, any root"
check("C09", [J("remove", [1, 3, 4, 5, 6], n=3, full=1), J("remove", [1, 3, 4, 5, 6], n=4), J("remove", [1, 3, 4, 5, 6, 7, 8], n=3, root=1, groups=1), J("remove", [3, 4, 5, 6, 7, 8], n=3, coll=1, bases=1, groups=1), T(J("remove", [1, 3, 4, 5, 6], n=4, full=1)), T(J("remove", [1, 3, 4, 5, 6], n=5))], RMV)
check("C10", [J("remove", [1, 2, 3, 4, 5, 6], n=3, bases=1, force=1, alias=1), J("remove", [1, 2, 3], n=3, two=1, bases=1, force=1), J("remove", [1, 2, 3], n=2, root=1, bases=1, alias=1, full=1), J("remove", [9], n=2, two=2, bases=1, force=1), J("remove", [10], n=2, unk=1), J("remove", [3, 4, 5, 6], n=3, sets=1), J("remove", [2, 3, 4], n=2, sets=1, bases=1), J("remove", [1, 3, 4, 5, 6], n=3, sets=2), J("remove", [1, 2, 3], n=2, sets=2, bases=1), T(J("remove", [2, 3, 4, 5, 6], n=3, sets=1, bases=1)), T(J("remove", [1, 3], n=4, full=1, alias=1)), T(J("remove", [1, 2, 3], n=4, two=1, bases=1))], RMV)
check("C08", [J("inst", [2, 6, 7], mode=2, no=1, nn=1, nq=1, nz=0), J("inst", [2, 6, 7], mode=3, no=1, nn=1, nq=1, nz=0, metas=1, root=1), J("inst", [2], mode=0, nn=1, nq=1), J("repo", [3, 4, 6, 7, 8, 10], n=3, cmd=1, dates=0), J("repo", [3, 4, 6, 8, 9, 10], n=2, cmd=4, gaps=1), J("repo", [3, 7, 10], n=2, cmd=5, sets=1), J("repo", [3, 6, 7, 8], n=2, cmd=0, groups=1, root=1), T(J("repo", [3, 4, 6, 7, 8, 10], n=3, cmd=1, full=1, dates=0)), T(J("repo", [3, 4, 6, 8, 9, 10], n=3, cmd=4, gaps=1))], INS + "; installs and upgrades from a repository with up to 2 (thorough 3) packages in any dependency relation, state and mark")
# ---- repository
RP = "requests that name an unknown package, or an archive and a name, packages that need one which does not exist; a local repository with up to 3 packages (thorough 4) of which each is installed in any version, older or newer build date, manual or automatic, or not installed, or missing from the repository; every dependency graph (cycles included); further up to date packages; "
check("C20", [J("repo", [3, 4, 5, 6, 7, 8, 10], memory=True, n=3, cmd=0, full=1, dates=0), J("repo", [3, 4, 5, 10], memory=True, n=3, cmd=1, short=1, root=1), J("repo", [3, 4, 5, 6, 7, 10], memory=True, n=3, cmd=2), J("repo", [3, 7, 10], memory=True, n=3, cmd=5, sets=1), J("repo", [3, 4, 11], memory=True, n=2, cmd=0, groups=1), J("repo", [3, 4, 5, 10], memory=True, n=3, cmd=0, same=1, gaps=1), J("repo", [3, 4, 11, 13], memory=True, n=2, cmd=0, groups=2), J("repo", [3, 4, 10, 14], n=2, cmd=2, nls=1), J("repo", [3, 4, 10, 14], n=2, cmd=0, nls=1, root=1), J("repo", [1], memory=True, n=2, cmd=6), J("repo", [1, 3, 4, 5, 6, 7, 8, 10], memory=True, n=2, cmd=7, root=1), J("repo", [2, 3, 4, 5, 6, 7, 8, 10], memory=True, n=3, cmd=0, gaps=1, miss=1, dates=0), J("repo", [2, 3, 4, 5, 6, 7, 8, 10], memory=True, n=3, cmd=1, gaps=1, miss=1, dates=0, marks=0), T(J("repo", [3, 4, 5, 6, 7, 8, 10], memory=True, n=4, cmd=0, dates=0)), T(J("repo", [3, 4, 5, 10], memory=True, n=3, cmd=1, full=1)), T(J("repo", [3, 4, 5, 10], memory=True, n=4, cmd=0, full=1, acyclic=1, dates=0, marks=0))], RP + "one name, two names, a collection or a set requested, groups and languages configured or not, any root", budget=300)
check("C23", [J("repo", [1, 3, 4, 5, 6, 8, 9, 10], n=2, cmd=4, gaps=1, decor=1), J("repo", [3, 4, 6, 8, 10, 12], n=2, cmd=4, move=1), J("repo", [3, 4, 6, 8, 10, 12], n=3, cmd=4, move=1, marks=0), T(J("repo", [1, 3, 4, 5, 6, 8, 9, 10], n=3, cmd=4, gaps=1, decor=1, timeout=800)), J("repo", [1, 3, 4, 5, 6, 8, 9, 10], n=3, cmd=4, gaps=1), J("repo", [2, 3, 4, 6, 10], n=2, cmd=3, pad=4), J("repo", [3, 4, 6, 8, 9, 10], n=2, cmd=3, pad=8, gaps=1, root=1), J("repo", [3, 6], n=2, cmd=4, same=1, full=1), J("repo", [2, 3, 4, 6, 8, 9, 10], n=2, cmd=4, gaps=1, miss=1), J("repo", [2, 3, 4, 6, 10], n=3, cmd=4, gaps=1, miss=1, dates=0, marks=0), T(J("repo", [2, 3, 4, 6, 9, 10], n=3, cmd=3, pad=4, gaps=1)), T(J("repo", [3, 4, 5, 6, 9, 10], n=3, cmd=4, gaps=1, full=1, dates=0))], RP + "confirmed with --proceed or not, any root")
check("C22", [J("diff", [2, 3, 4, 5, 6, 7, 8], n=3, cmd=0), J("diff", [2, 3, 4, 5, 6, 7, 8], n=3, cmd=0, pad=8), J("diff", [6, 7, 8], n=3, cmd=0, nosizes=1), J("diff", [6, 7, 8], n=3, cmd=0, nosizes=2), J("diff", [2, 3, 4, 5, 6, 7, 8], n=3, cmd=0, big=1), J("diff", [6, 7], n=2, cmd=1, root=1), J("diff", [6, 7], n=3, cmd=2, pad=2), J("diff", [1], n=2, cmd=4), T(J("diff", [2, 3, 4, 5, 6, 7, 8], n=4, cmd=0)), T(J("diff", [6, 7], n=4, cmd=2, root=1))], "up to 3 packages (thorough 4) plus up to 8 up to date ones, each installed or not, in the repository or not, with the same or another version, any of ten build dates, manual or automatic, with and without recorded sizes, of a few bytes or of many GiB; cards diff, cards upgrade --check, --size and --download-only")
# ---- guards
GU = lambda w, **k: [J("guard", w, cmd=c, **k) for c in range(8)]
check("C11", GU([1, 2, 4], uid=1, lock=1) + GU([2, 3, 4], root=1, lock=1, scripts=1, fork=3) + [J("guard", [2, 4] + ([7, 8] if c != 4 else []), cmd=c, left=1, lock=1) for c in (0, 2, 4, 6, 7)] + [J("repo", [3, 4, 6, 7], n=3, dates=0, cmd=1), J("repo", [3, 6, 9], n=2, cmd=4, gaps=1), J("build", [2, 5, 11], tset=1), J("build", [2, 5], script=1)], "every command that changes the system (cards create, pkgadd, pkgadd -f, pkgadd -u, pkgadd -u -f, pkgrm, cards remove, cards install of a new or an installed package), with and without pre/post scripts, script outcomes, alternative root; the lock is free or held by another process at each attempt, whose installation has put its metadata into the root directory; file lists of up to two names")
check("C28", GU([3, 4, 5, 6], scripts=1, fork=3) + [J("guard", [4, 9], cmd=c, scripts=1, sfault=65407) for c in (0, 2, 4, 5, 6, 7)] + GU([3, 4, 5, 6], scripts=1, fork=3, root=1) + [J("guard", [4], cmd=c, scripts=1, fork=1, ignore=1) for c in (0, 2, 6)] + [J("guard", [3, 4, 7, 8], cmd=c, scripts=1, fork=3, left=1) for c in (0, 1, 2, 3, 6, 7)], "what an interrupted installation of another package left in the root directory, or nothing, packages with scripts for their removal, every command that changes the system, packages with any combination of a pre and a post script, every 16-bit wait status of each script (exit code, signal), failing fork, one failing system call of any kind (the extraction excepted), both sides of the fork (what the child executes), scripts disabled, alternative root")
check("C30", GU([1, 4], uid=1) + GU([1, 4], uid=1, root=1, scripts=1) + [J("sync", [3, 4], cmd=1, uid=1), J("sync", [4, 8], uid=1, lean=1), J("build", [8], uid=1), J("repo", [1], n=2, cmd=4, gaps=1, uid=1), J("repo", [1], n=2, cmd=0, uid=1), J("repo", [1], n=2, cmd=1, uid=1, groups=1, root=1)], "every 32-bit user id, the eight ways to install, upgrade and remove packages (tools and cards), cards sync and cards purge, alternative root, packages with scripts; cards create, cards upgrade, installs from a repository")
check("C14", GU([4], root=1, scripts=1, fork=3) + [J("guard", [3, 4, 9], cmd=c, scripts=1, root=1, sfault=1024) for c in (0, 2, 6, 7)] + [J("repo", [3, 4, 6, 7], n=3, dates=0, cmd=1, root=1), J("repo", [3, 6, 9], n=2, cmd=4, gaps=1, root=1), J("diff", [6, 7], n=2, cmd=1, root=1), J("inst", [2], mode=2, no=1, nn=2, nq=1, kinds=1, root=1), J("inst", [2, 10], mode=1, nn=1, nq=1, n3=1, metas=1, root=1, long=1, multi=1, qnames=1), J("inst", [2, 4], mode=3, nr=1, nn=2, nq=1, no=1, nz=0, root=1), J("rm", [1, 2, 3], np=2, nq=1, nr=1, root=1), J("rm", [1, 2, 3, 4, 5], np=1, nq=1, nr=1, sub=1, kinds=1, root=1), J("remove", [1, 3, 4, 5, 6, 7, 8], n=3, root=1, groups=1), J("remove", [1, 2, 3], n=2, root=1, bases=1, alias=1, full=1)], "the same commands with an absolute alternative root, next to a host system with packages, rules, metadata files and files of the same names; package contents of relative paths (for those with '..' see C44)")
# ---- crashes and failing writes
CR = "a command is interrupted before any of its system calls that change something; packages with up to 2 files of symbolic name (thorough 3), another package with up to 2; the commands that follow run on what was left; "
check("C12", [J("crash", [1, 2, 3, 4, 6, 8], op=o, crash=2, fault=15, nn=2, nq=1, only12=1) for o in (1, 2, 3, 4, 6)] + [J("crash", [2, 3, 8], op=o, crash=0, fault=15, nq=2, only12=1, reported=1) for o in (1, 2, 4, 6)] + [J("crash", [1, 3], op=o, crash=2, nq=2) for o in (0, 5)] + [J("crash", [1, 2, 3, 4, 5, 6], op=2, crash=2, fault=15, nq=1, nn=1, only12=1, root=1, long=1), T(J("crash", [1, 2, 3, 4, 5, 6, 8], op=4, crash=2, fault=15, nn=2, nq=2, no=2, only12=1))], CR + "process killed or power lost (data that was not synchronised may be cut back), and in every combination one failing open, write (short or none), fsync or rename; pkgadd with all combinations of -u and -f, cards install, pkgrm and cards remove; any root", assumptions=["directory operations reach the disk in order; only file contents that were not synchronised can be lost"])
check("C13", [J("crash", [1, 3, 9, 11], op=0, no=3, nq=2), J("crash", [1, 3, 9, 11], op=5, no=2, nq=2), J("crash", [1, 3, 9, 11], op=5, autodep=1, no=2, root=1), J("crash", [1, 3, 9, 11], op=7, no=2, nq=2), J("crash", [1, 3, 9, 11], op=7, root=1, long=1), J("crash", [1, 3, 12, 13], op=1), J("crash", [1, 3, 5, 12, 13], op=2, nq=2), J("crash", [1, 3, 12, 13], op=3, no=2), J("crash", [1, 3, 12, 13], op=4, root=1, long=1), J("crash", [1, 3, 12], op=6), J("crash", [1, 3, 12], op=6, autodep=1), J("crash", [1, 3, 12], op=6, autodep=1, root=1, nn=1), T(J("crash", [1, 3, 12, 13], op=4, nn=2, nq=2, no=2)), T(J("crash", [1, 3, 12, 13], op=3, nn=3, nq=1, no=2)), T(J("crash", [1, 3, 9, 11], op=0, no=4, nq=2))], CR + "process killed; pkgadd with all combinations of -u and -f, cards install with and without a dependency, pkgrm, cards remove with and without an automatic dependency, and cards upgrade with an obsolete package; any root")
# ---- signatures
SG = "a remote collection with two or three packages (a dependency, a sub package of a configured group), each archive in the cache, missing or outdated, hashes right, upper case or wrong, global or per-collection url; every 32-bit result of each verification; key good, missing, empty or of another type; archive contents of a few, 8193 or 16385 bytes; in some jobs no signature, or one of up to 2 arbitrary bytes"
check("C15", [J("sign", [1, 2, 3, 4], cmd=0, cfgs=1), J("sign", [1, 2, 3, 4, 5], cmd=0, hashes=1, keys=1, dep=0), J("sign", [1, 2, 6], cmd=0, groups=1, caches=0, cfgs=1), J("sign", [1, 2, 3, 4, 6], cmd=0, groups=1), J("sign", [1, 2, 3, 4], cmd=1, dep=0, cfgs=1), J("sign", [1, 2, 3], cmd=2, cfgs=1), J("sign", [1, 2, 3, 5, 6], cmd=2, keys=1, hashes=1, groups=1, dep=0, caches=0), J("sign", [1, 2, 3, 4], cmd=0, web=2), J("sign", [1, 2, 3], cmd=2, web=2), J("sign", [1, 2], cmd=0, fail=1, caches=0), J("sign", [1, 2, 3, 4], cmd=0, othc=1, cfgs=1), J("sign", [1, 2, 3], cmd=2, othc=1, cfgs=2), J("sign", [1, 2, 8], cmd=0, sig=2, dep=0, caches=0), J("sign", [1, 2], cmd=2, sig=2, dep=0, caches=0), J("sign", [1, 2, 3, 4], cmd=0, big=8193, dep=0), J("sign", [1, 2, 3, 4], cmd=1, big=16385, dep=0), T(J("sign", [1, 2, 3, 4, 5, 6], cmd=0, hashes=1, keys=1, groups=1, cfgs=1)), T(J("sign", [1, 2, 3, 4], cmd=0, web=2, fail=1, hashes=1)), T(J("sign", [1, 2, 3], cmd=2, web=2, fail=1, groups=1, hashes=1))], SG + "; failing and truncated downloads, failing digest and verification set-up; cards install of one and two names and cards upgrade --proceed", assumptions=["the digest and the signature verification are stand-ins: the digest is injective on the contents used, the verification returns any value"])
check("C16", [J("sign", [1, 2, 8], memory=True, cmd=0, sig=3, dep=0, caches=0), J("sign", [1, 2, 8], memory=True, cmd=0, sig=2, caches=0), T(J("sign", [1, 2, 8], memory=True, cmd=0, sig=4, dep=0, caches=0, timeout=800))], "signature texts of 0 to 3 arbitrary bytes (thorough 4) in the repository's metadata; " + SG)
# ---- metadata
PB = "two records whose 20 fields are each present or missing with an arbitrary byte as value, in both orders, with blank, foreign or nameless records between them and another collection before; before a good record up to 3 arbitrary bytes (thorough 4), or one line of any length up to 12 that starts with a given field letter, numbers of up to 20 digits; NUL bytes included"
check("C19", [J("parse", [1, 2], memory=True, mode=0, few=1), J("parse", [1, 2], memory=True, mode=0, gaps=1, dirs=2, orders=1), J("parse", [1, 2], memory=True, mode=0, deplen=3), J("parse", [1, 2], memory=True, mode=0, few=1, vlen=21, nlen=17, deplen=5), J("parse", [3], memory=True, mode=1, k=2, nul=1), J("parse", [3], memory=True, mode=1, k=2, tail=0)] + [J("parse", [3], memory=True, mode=1, pre=p, k=n) for p, n in ((82, 12), (114, 2), (103, 5), (64, 2), (110, 5))] + [J("parse", [3], memory=True, mode=1, k=3)] + [J("parse", [3], memory=True, mode=1, pre=p, k=20, digits=1) for p in (66, 83, 114)] + [T(J("parse", [3], memory=True, mode=1, k=4, nul=1, timeout=800)), T(J("parse", [1, 2], memory=True, mode=0, few=1, gaps=1, orders=1))], PB)
check("C17", [J("parse", [5], memory=True, mode=3), J("parse", [5], memory=True, mode=3, deplen=3), J("parse", [5], memory=True, mode=3, vlen=9, nlen=6, deplen=3), J("parse", [4], memory=True, mode=2, k=3), J("parse", [4], memory=True, mode=2, k=3, nul=1), J("parse", [4], memory=True, mode=2, k=2, tail=0, nul=1)] + [J("parse", [4], memory=True, mode=2, pre=p, k=n) for p, n in ((82, 12), (103, 4), (114, 3), (83, 3), (65, 3))] + [J("parse", [4], memory=True, mode=2, pre=p, k=20, digits=1) for p in (66, 83, 114)] + [T(J("parse", [4], memory=True, mode=2, k=4, nul=1, timeout=800))], "metadata of an installed package: every field present or missing with an arbitrary byte, or nine, as value; up to 3 arbitrary bytes (thorough 4), NUL included, with and without a final newline; one line of any length up to 12 with a given first letter, numbers of up to 20 digits")
check("C18", [J("parse", [9, 10], memory=True, mode=6), J("parse", [9, 10], memory=True, mode=6, vlen=12, nlen=4, deplen=9), J("parse", [6], memory=True, mode=5), J("parse", [6], memory=True, mode=5, nf=3), J("parse", [8], memory=True, mode=4, k=3), J("parse", [7, 8], memory=True, mode=4, k=3, which=1), J("parse", [7, 8], memory=True, mode=4, k=3, which=1, nul=1), J("parse", [7], memory=True, mode=4, k=2, empty=1, short=1), J("parse", [7], memory=True, mode=4, k=2, empty=1, short=1, which=1), J("parse", [8], memory=True, mode=4, pre=82, k=12), J("parse", [8], memory=True, mode=4, pre=114, k=3), J("parse", [8], memory=True, mode=4, k=3, nul=1), T(J("parse", [8], memory=True, mode=4, k=4, nul=1, timeout=800)), T(J("parse", [7, 8], memory=True, mode=4, k=5, which=1, nul=1, timeout=800))], "package metadata and file list of arbitrary bytes (up to 3, thorough 5), empty, missing, truncated or unreadable members, with and without a final newline; up to 3 files of symbolic name; every field of a complete archive, in two orders, any one field missing, with values of one or twelve arbitrary bytes, lines of hidden files among the files")
# ---- post-install triggers
check("C31", [J("trig", [1, 2, 3, 5, 6], cmd=0, nr=2, conf=1), J("trig", [1, 2, 5, 6], cmd=1, nr=2, conf=1), J("trig", [1, 2, 3, 5, 6], cmd=2, nr=2, conf=1), J("trig", [1, 2, 5, 6], cmd=3, nr=2, conf=1, root=1), J("trig", [4], cmd=4, nr=2), J("trig", [4], cmd=5, nr=2), J("trig", [1, 2, 3, 5, 6], cmd=6, nr=2, conf=1), J("trig", [1, 2, 3, 5, 6], cmd=7, nr=2, conf=1), J("trig", [1, 2, 5, 6], cmd=0, nr=2, lo=0, hi=5, root=1, tools=1), J("trig", [1, 2, 5, 6], cmd=2, nr=2, lo=0, hi=5, two=1), J("trig", [1, 2, 5, 6], cmd=0, nr=3, lo=1, hi=3), T(J("trig", [1, 2, 5, 6], cmd=0, nr=3, lo=0, hi=4)), T(J("trig", [1, 2, 5, 6], cmd=2, nr=3, lo=0, hi=3, two=1))], "tables of up to 3 rules with symbolic event (INSTALL, UPGRADE, LDCONF, INFO, SCHEMAS, FONTS) and action, every matching behaviour of their patterns; packages with a directory and up to two files; conflict or none; tools present or missing; pkgadd with all combinations of -u and -f, cards install, pkgrm, cards remove; any root; both sides of every fork", assumptions=["when a file matches trigger rules of different events, only the event of the last one is required to run"])
check("C32", [J("rej", [1, 2], sizes=2), J("rej", [1, 2], sizes=2, root=1, deep=1, perms=1, other=1), J("rej", [1, 2], okind=0, nkind=0, sizes=6, deep=1, perms=1, other=1), J("rej", [1, 2], okind=1, nkind=1, perms=1, other=1), T(J("rej", [1, 2], sizes=6, perms=1, other=1, deep=1, root=1))], "the kept and the new file of every type (regular, symbolic link, character and block device, directory, fifo), every mode, 8-bit owner and group, 16-bit device number, link target of up to 3 bytes, content of 0, 1, 2, 8191, 8192, 8193 or 16384 bytes differing in the last or a middle byte; an earlier rejected file present or not; any root")

# ---- configuration, metadata of the servers, caches
check("C24", [J("conf", [2, 3, 4, 5, 6], memory=True, n=3, kinds=6, vfile=1), J("conf", [2, 3, 4, 5, 6], memory=True, n=2, kinds=12, wide=1, com=1), J("conf", [2, 3, 4, 5, 6], memory=True, n=2, kinds=12, vfile=1), J("conf", [2, 3, 4, 5, 6], memory=True, n=2, kinds=6, com=1, tight=1), J("conf", [1], memory=True, mode=1, k=3, nul=1), J("conf", [1], memory=True, mode=1, k=2, nul=1, tail=0), J("conf", [1], memory=True, mode=1, k=1, pad=8200), J("conf", [1], memory=True, mode=1, k=1, pad=8191, tail=0), T(J("conf", [2, 3, 4, 5, 6], memory=True, n=3, kinds=12, wide=1)), T(J("conf", [2, 3, 4, 5, 6], memory=True, n=4, kinds=6)), T(J("conf", [1], memory=True, mode=1, k=4, nul=1))], "up to 3 lines (thorough 4) of 13 kinds of any order (dir with and without server, collection, depot, url, group, locale, logdir, version, name, foreign keys, comments), blank or tab as separator, extra blanks, trailing comments, with and without a final newline, one symbolic printable byte per value, urls with the separator in them, comments with and without a blank; up to 3 arbitrary bytes (thorough 4), NUL included, and lines of up to 8200 bytes between good lines; the system's version file present or not")
check("C33", [J("sync", [1, 2, 3], memory=True, cmd=1)], "up to three collections, with and without server, existing or not; cached files of symbolic names, in a sub directory or not, symbolic links, metadata files; files beside the collections")
check("C37", [J("sync", [1, 2, 3, 4, 6], memory=True, server=1), J("sync", [1, 2, 3, 4, 6, 7], web=1), J("sync", [1, 2, 3, 4, 5, 7], crash=1), J("sync", [1, 2, 3, 4, 6, 7], fault=15)] + [J("sync", [1, 2, 3, 4, 6, 7], zfail=1, cfg=c, lean=1) for c in (0, 1)] + [J("sync", [1, 2, 3, 4, 5, 7], crash=2, cfg=c, lean=1) for c in (0, 1)] + [J("sync", [1, 2, 3, 4, 5, 6, 7], fault=15, crash=2, cfg=0, lean=1), T(J("sync", [1, 2, 3, 4, 5, 6, 7], fault=15, crash=2, cfg=1, lean=1)), T(J("sync", [1, 2, 3, 4, 5, 7], crash=2, cfg=2, lean=1)), T(J("sync", [1, 2, 3, 4, 6, 7], zfail=1, cfg=2, lean=1)), T(J("sync", [1, 2, 3, 4, 6], server=2, cfg=1)), T(J("sync", [1, 2, 3, 4, 6, 7], web=1, fault=15))], "three collections with own, default or no server, default or own depot; local metadata and key present or not; each file of the server present, missing, truncated or not compressed; failing and truncated downloads, failing decompression; the command killed, or power lost, before any system call that changes something; one failing open, write (short or none), fsync or rename; the command repeated afterwards", assumptions=["the compression is a stand-in (header with length and the content itself)", "directory operations reach the disk in order; only file contents that were not synchronised can be lost"])
SH = lambda w, **k: J("show", w, **k)
check("C34", [SH([1, 2, 3, 4], mode=3, cmd=0), SH([1, 2], memory=True, mode=0, cmd=0, few=1), SH([1, 2], mode=0, cmd=1, few=1), SH([1, 2, 3, 4], memory=True, mode=0, cmd=3, few=1), SH([1, 2, 3, 5, 6], memory=True, mode=0, cmd=4, few=1), SH([1, 2, 3, 5, 6], mode=0, cmd=5, few=1), SH([1, 2, 3, 4], memory=True, mode=0, cmd=6, few=1)] + [SH([1, 2, 3, 4], mode=0, cmd=2, n=2, one=ord(o), few=1) for o in "NcDUPV"] + [SH([1, 2, 3, 4], mode=0, cmd=2, n=2, full=1, one=ord("D"), kinds=1, al=2), T(SH([1, 2], mode=0, cmd=0)), T(SH([1, 2], mode=0, cmd=1, n=3)), T(SH([1, 2, 3, 4], mode=0, cmd=3)), T(SH([1, 2, 3, 4], mode=0, cmd=3, al=2, few=1))] + [T(SH([1, 2, 3, 4], mode=0, cmd=2, n=3, one=ord(o), few=1, kinds=1)) for o in "NDV"], "three collections (one without metadata, one missing, empty or cut off), two to three records with the fields version, release, collection, description, url, packager and set missing or of one arbitrary printable character, search words of one to two characters, any outcome of matching the expression of query; sizes around 1024, 2^20, 2^30, 2^32 and up to 10^13")
check("C35", [SH([1, 2, 3, 4], mode=3, cmd=1)] + [SH([1, 2], memory=True, mode=1, cmd=c, few=1) for c in (0, 1)] + [SH([1], mode=1, cmd=2, few=1)] + [SH([1, 3, 4], mode=1, cmd=c, few=1, memory=c == 4) for c in (3, 4, 7, 8, 9)] + [SH([1, 2, 3], mode=1, cmd=c, few=1) for c in (5, 6)] + [SH({0: [1, 2], 2: [1], 3: [1, 3], 5: [1, 2, 3], 7: [1, 3], 9: [1, 3]}[c], mode=1, cmd=c, few=1, root=1, alias=0) for c in (0, 2, 3, 5, 7, 9)] + [T(SH([1, 2], mode=1, cmd=0, timeout=300)), T(SH([1, 3, 4], mode=1, cmd=8, timeout=600)), T(SH([1, 2, 3], mode=1, cmd=5, timeout=300))], "two installed packages with 15 fields, each of them missing or of one arbitrary character, an alias, the automatic mark, one file each; any outcome of matching the expression; the system or an alternative root; sizes around 1024, 2^20, 2^30, 2^32 and up to 10^13")
check("C38", [SH([1, 2, 3, 4], mode=2, cmd=c) for c in (0, 1, 2, 5)] + [SH([1, 2, 3, 4, 5, 6], mode=2, cmd=c) for c in (3, 4)] + [SH([1, 2, 3, 4], mode=2, cmd=c, samec=1) for c in (0, 1, 2)] + [SH([1, 2, 3, 4, 5, 6], mode=2, cmd=c, samec=1) for c in (3, 4)], "three collections in both orders of the first two, the records naming their directory or all the same collection, the package in any of them, build dates of one arbitrary digit each, a package that needs it in the first or the last collection; info -b, install, install of a package that needs it, of an installed one, upgrade --proceed and --check")
# ---- building and publishing
PO = lambda w, **k: J("ports", w, **k)
check("C21", [PO([1, 2, 3, 4, 5], memory=True, cmd=0, n=3, slots=2, known=2), PO([1, 2, 3, 4], cmd=0, n=4, slots=1, known=1), PO([1, 2, 3, 5], memory=True, cmd=0, n=2, styles=1, known=2), PO([1, 2, 3, 5], cmd=0, n=2, slots=1, styles=1), PO([1, 2, 3, 5], cmd=0, n=2, suffix=1, known=2), PO([1, 2, 3], cmd=1, n=3, slots=2, known=1), PO([1, 2, 3], cmd=1, n=4, slots=1, known=1), PO([1, 2], cmd=2, n=3, slots=2, known=1), PO([1, 2], memory=True, cmd=2, n=2, styles=1, known=2), PO([1, 2, 3], memory=True, cmd=3, n=2, styles=1, vers=0, known=2), PO([1, 2, 3], cmd=3, n=2, slots=1), PO([1, 2, 3], cmd=3, n=2, slots=2, known=1), T(PO([1, 2, 3, 4, 5], cmd=0, n=3, slots=2, known=2, styles=1, timeout=600)), T(PO([1, 2, 3, 4], cmd=0, n=5, slots=1, known=1, timeout=600)), T(PO([1, 2, 3, 4, 5], cmd=0, n=3, slots=3, known=1, timeout=800)), T(PO([1, 2], cmd=2, n=3, slots=2, known=2, styles=1, timeout=600)), T(PO([1, 2, 3], cmd=1, n=5, slots=1, known=1, timeout=600))], "up to 3 ports with up to two dependencies each, up to 4 (thorough 5) with one, in two collections next to other files: every graph over the ports and a missing one (with 2 ports: every name of a lower case letter), five ways of writing the lists, names of sub packages, versions and releases present or not", assumptions=["the level of a port on or above a cycle is unspecified", "names of sub packages are resolved by cards level only"])
RG = lambda w, **k: J("repogen", w, **k)
check("C39", [RG([1, 2, 3], memory=True, mode=0), RG([1, 2, 5], mode=0, crash=1), RG([1, 2, 5], mode=0, crash=2), RG([1, 2, 4], mode=0, fault=15), RG([1, 2, 3], mode=1), RG([1, 2, 3], mode=0, pre=1), RG([1, 2, 3], mode=0, big=8192), RG([1, 6, 7], memory=True, mode=2)], "two collections with up to three packages, one of them in a sub directory, an arbitrary printable character in a field and a file name of each, earlier metadata or none, a foreign file among them; one collection, all or an unknown one requested, names of which one begins with the other, archives of more than 8192 bytes; the command killed, or power lost, before any system call that changes something; one failing open, write (short or none), fsync or rename; every 32-bit result of each verification, an archive missing", assumptions=["digest, signature and compression are stand-ins", "directory operations reach the disk in order; only file contents that were not synchronised can be lost"])
check("C40", [RG([2, 4], memory=True, mode=3), RG([1, 2, 4], mode=3, uid=1), RG([2, 3, 4], mode=3, keyFail=1, fault=4615)], "every 32-bit user id, no earlier key or one of mode 0600 or 0644, a configuration with and without a place for keys, umask 022; one failing key generation, write (short or none), open, fsync, chmod or rename", assumptions=["the keys are stand-ins with a serial number"])
AR = lambda w, **k: J("args", w, **k)
check("C29", [AR([1, 2, 3, 4], memory=True, tool=0, n=2, sym=1), AR([1, 2, 3, 4], tool=0, n=1, sym=2), AR([1, 2, 3, 4], tool=0, n=3, sym=0), AR([1, 2, 3, 4], memory=True, tool=1, n=2, sym=2, timeout=100), AR([1, 2, 3], memory=True, tool=2, n=1, sym=2), AR([1, 2, 3, 4], tool=2, n=2, sym=0), AR([1, 2, 3, 4], memory=True, tool=3, n=1, sym=2), AR([1, 2, 3, 4], tool=3, n=2, sym=1), AR([1, 2, 3, 4], memory=True, tool=4, n=2, sym=1), AR([1, 2, 3, 4], tool=4, n=3, sym=0), AR([1, 2], memory=True, tool=5), AR([1, 2], memory=True, tool=6), AR([1, 2], memory=True, tool=7, sym=2), T(AR([1, 2, 3, 4], tool=3, n=3, sym=0, timeout=600)), T(AR([1, 2, 3, 4], tool=2, n=3, sym=0, timeout=600)), T(AR([1, 2, 3, 4], tool=3, n=2, sym=2, timeout=600)), T(AR([1, 2], tool=7, sym=3, timeout=600)), T(AR([1, 2, 3, 4], tool=0, n=2, sym=2, timeout=600))], "pkgadd, pkgrm, pkginfo, cards install and cards remove with up to three tokens: every option in both spellings, with and without its value, the command at any place, operands, words of up to two arbitrary bytes (thorough three); every option of any command with ten commands; zero to three operands with ten commands; package installed or not, a conflicting file or not", assumptions=["options given twice that take a value, pkginfo -d together with another query, and operands of commands that take none are unspecified"])
EL = lambda w, **k: J("elf", w, memory=True, **k)
check("C27", [EL([1, 2], mode=0, nd=2, sl=4, shape=1), EL([1, 2], mode=0, nd=3, sl=4, c32=1), EL([1, 2], mode=0, nd=1, sl=4, two=1), EL([1, 2], mode=0, nd=2, sl=3, cmd=1, root=1), EL([1, 2, 3], mode=0, nd=1, sl=3, cmd=2, two=1), EL([1, 2, 3], mode=0, nd=1, sl=4, cmd=2), EL([1, 2, 3], mode=0, nd=2, sl=3, cmd=2, c32=1, root=1), EL([1, 2, 3], mode=0, nd=1, sl=4, cmd=3)] + [EL([2], mode=1, what=0, c32=c) for c in (0, 1)] + [EL([2], mode=1, what=1, lo=12, c32=c, cmd=c) for c in (0, 1)] + [EL([2], mode=1, what=1, hi=11)] + [EL([2], mode=1, what=2, c32=c, end=e) for c in (0, 1) for e in (0, 1)] + [EL([2], mode=1, what=3, cmd=c) for c in (0, 1)] + [EL([2], mode=1, what=4, c32=c, g32=1) for c in (0, 1)] + [T(EL([1, 2], mode=0, nd=3, sl=4, shape=1, timeout=800)), T(EL([1, 2, 3], mode=0, nd=2, sl=5, cmd=2, timeout=800)), T(EL([2], mode=1, what=0, nf=2, timeout=800)), T(EL([2], mode=1, what=0, nf=2, c32=1, timeout=800))], "one or two ELF files with one or two program headers in both orders, three or four sections, up to 3 dynamic entries of arbitrary tag and value, strings of up to 3 arbitrary bytes; next to them a text, a link, a sub directory; a damaged file before or after a right one: each of ten header fields set to 14 boundary values (thorough two at once), arbitrary dynamic entries, types of segments and sections, every truncation, special files; needed names are owned by none or any of two packages", assumptions=["names that begin like another file of the packages are left out for the owners (the search is one for a part of the path)"])
CU = lambda w, **k: J("cut", w, memory=True, **k)
check("C41", [CU([1, 2, 3], cmd=0, n=3), CU([1, 2, 3], cmd=1, n=3, root=1), CU([1, 2, 3, 4], cmd=2, n=2, no=2), CU([1, 2, 3, 4], cmd=3, n=2, no=2, root=1), CU([1, 2, 3, 4], cmd=4, n=2, no=2, root=1), T(CU([1, 2, 3], cmd=0, n=6, timeout=600)), T(CU([1, 2, 3, 4], cmd=4, n=4, no=3, timeout=600))], "an archive with up to three files (thorough six) with arbitrary one byte names, a directory and a script, damaged after any number of its entries, before or within the data of the last, or not; every subset of its entries read with a warning; installation, forced, upgrade, cards install, alternative root; old version with up to two files", assumptions=["an uncompressed archive cut exactly between two entries has no end that can be missed: libarchive reports it as complete"])
PA = lambda w, **k: J("paths", w, **k)
check("C42", [PA([1, 3], memory=True, tool=0, scripts=1), PA([1, 3], tool=0, rules=1, conf=1), PA([1, 3], memory=True, tool=1, rules=1), PA([1, 3], tool=2), PA([1, 3], tool=3), PA([1, 3], memory=True, tool=4, k=1, rules=1, scripts=1), PA([1, 3], tool=4, k=2), PA([1, 3], tool=4, k=1, conf=1), PA([1, 3], tool=5, conf=1), T(PA([1, 3], tool=4, k=2, rules=1, scripts=1, timeout=600)), T(PA([1, 3], tool=4, k=3, timeout=800)), T(PA([1, 3], tool=1, rules=1, scripts=1, timeout=600))], "five working directories, six spellings of the root, five of each of up to two archives (thorough three), four of the configuration file, arbitrary one byte names of the files; post install triggers and scripts", assumptions=["the command is not started in a directory that it removes"])
FO = lambda w, **k: J("foot", w, memory=True, **k)
check("C43", [FO([4], n=1, mask=4095), FO([4], n=1, own=1), FO([4], n=2, mask=2120, two=1), FO([1, 2, 4, 5], n=2, cut=1), FO([3], n=1, empty=1), T(FO([4], n=3, mask=64, two=1, timeout=800)), T(FO([1, 2, 4, 5], n=3, cut=1, timeout=600)), T(FO([4], n=1, own=2, timeout=600))], "an archive of up to two entries (thorough three) of every kind with an arbitrary one byte name and target; every mode of one entry, three bits of each of two; owners and device numbers of one byte (thorough group of 16 bits); every subset read with a warning; damaged after any entry, missing, or no archive", assumptions=["a hard link is shown as the file it leads to, with the mark for an empty one"])
DO = lambda w, **k: J("dots", w, memory=True, **k)
check("C44", [DO([1, 2], where=0, k=6), DO([1], where=1, k=6), DO([1], where=2, k=6), DO([1, 5], where=3, k=6), DO([3, 4], where=4, k=4), DO([1, 2], where=0, k=4, any=1), DO([1, 5], where=3, k=4, any=1), DO([3, 4], where=4, k=3, any=1)] + [DO([1, 2], cmd=c, where=0, k=4, pre=1, root=r) for c, r in ((1, 1), (2, 0), (3, 1), (4, 1))] + [DO([1, 5], cmd=c, where=3, k=4) for c in (1, 2, 3, 4)] + [DO([3, 4], cmd=4, where=4, k=3), DO([1], cmd=4, where=1, k=4), DO([1], cmd=2, where=2, k=4), T(DO([1, 2], where=0, k=9)), T(DO([1, 5], where=3, k=9)), T(DO([1, 2], cmd=4, where=0, k=6, any=1, pre=1))], "up to 6 symbolic bytes (thorough 9) of dot, slash and letter, or up to 4 arbitrary bytes, at the place of the path of an entry, its line in the list of files, both, the target of a hard link, or the name of the package; pkgadd with all combinations of -u and -f, cards install; the system or an alternative root", assumptions=["symbolic links that exist in the root or come with the package are followed, also those that lead out of the root", "names that start with a dot are metadata of the package"])
FE = lambda w, **k: J("fetch", w, memory=True, **k)
check("C45", [FE([1, 2], cmd=0, k=5), FE([1, 2], cmd=1, k=5), FE([1, 2], cmd=3, k=5), FE([1], cmd=2, k=4), FE([1], cmd=0, k=6, tail=1), FE([1], cmd=1, k=6, tail=1), FE([1], cmd=0, k=5, pre=1, tail=1), FE([1], cmd=1, k=5, pre=1, tail=1), FE([1], cmd=3, k=5, pre=1, tail=1), FE([1, 2], cmd=0, k=3, any=1), FE([1, 2], cmd=1, k=3, any=1), T(FE([1, 2], cmd=0, k=9)), T(FE([1, 2], cmd=1, k=9)), T(FE([1, 2], cmd=3, k=8)), T(FE([1, 2], cmd=1, k=5, any=1))], "archive names with up to six (thorough nine) leading bytes over '.', '/' and 'a', or up to three (thorough five) arbitrary bytes, in front of the name or of a further path component, after an existing directory or not; install of the package, of one that needs it, upgrade and info; every signature verifies")
BU = lambda w, **k: J("build", w, memory=True, **k)
check("C46", [BU([1, 2, 3, 4, 5]), BU([2, 6, 7], fork=3, sub=1), BU([2, 5, 12], gaps=1, sub=1, script=1), BU([1, 5, 11], tset=1, fork=2), BU([2, 5], junkSets=1, told=1), BU([1, 2, 5, 12], near=1, sub=1), BU([5, 8], uid=1), BU([5, 9], nochroot=1), BU([10], dry=1), BU([2, 5], script=1, doc=1, log=1, jrepo=1), BU([1, 5], log=1), T(BU([2, 5, 12], gaps=1, doc=1, sub=1, told=1, junkSets=1, timeout=800)), T(BU([2, 6, 7], fork=3, tset=1, log=1, gaps=1, timeout=800))], "a port with up to two dependencies that may need each other, with and without binaries and sub packages; packages of the base sets and others installed or not, the port itself installed or not; every status of the build; with and without log directory, package scripts")
CO = lambda w, **k: J("coll", w, memory=True, **k)
check("C47", [CO([3, 4], few=1), CO([1, 2], dry=1), CO([5], fail=1, few=1, arch=0), CO([3, 4], other=1, ports=1, few=1), T(CO([3, 4], timeout=800)), T(CO([5], fail=1, few=1, timeout=800)), T(CO([1, 2], dry=1, other=1, ports=1, timeout=800))], "three ports in three (dry run and thorough: eight) dependency orders, each with or without binary, with an arbitrary one digit version and release and its archive there or not; a binary without port, another collection; every status of every build")
ST = lambda w, **k: J("stale", w, memory=True, **k)
check("C48", [ST([1, 3, 4], cmd=c) for c in (0, 2, 3, 4, 5, 6, 7, 8)] + [ST([1, 3, 4], cmd=c, mark=k) for c in (2, 3, 7) for k in (1, 2)] + [ST([1, 4], cmd=1), ST([1, 4], cmd=9), ST([1, 3, 4], cmd=0, half=1), ST([1, 4], cmd=1, half=1, none=1), ST([1, 4], cmd=9, root=1), ST([1, 3, 4], cmd=3, root=1, two=1), ST([1, 3, 4], cmd=2, two=1, root=1), ST([1, 3, 4], cmd=4, root=1), ST([1, 3, 4], cmd=6, root=1, none=1), T(ST([1, 3, 4], cmd=7, two=1, none=1)), T(ST([1, 3, 4], cmd=0, two=1, none=1))], "pkgadd with all combinations of -u and -f, pkgrm, cards remove, cards install of one or two archives, the removals of cards upgrade; another process installs, upgrades or removes the same or another package, or changes the automatic mark of the same one, completely before the command gets the lock for its (second) change, or begins before the command starts; arbitrary one byte names of the files of all packages; the system or an alternative root", assumptions=["the clock of the file system tells two changes of the database apart", "what cards chooses to install, upgrade or remove is chosen before: a package that another process makes necessary meanwhile can still be removed as no longer needed", "cards create works in a build system of its own and is left out"])
