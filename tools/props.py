""" Source of properties.jsonl and MANIFEST.json: python3 tools/props.py """
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe_at=(),
      hook_needed=None, technique='', level='exploration', note=''):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(prop=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe_at), hook_needed=hook_needed)),
        technique=technique, level=level, note=note))


p('C01', 'Metadata survives the extended attribute and database encodings',
  'Metadata written as extended attributes (in memory, on a real file or directory) or as a database blob, and read '
  'back with the same prefix, has exactly the same value in every field: absent stays absent, zero stays zero, bytes, '
  'unicode and instants are preserved whatever the local timezone of writer and reader. Attributes of another prefix '
  'in the same namespace neither leak in nor change, and renaming or rewriting the file keeps the metadata.',
  ['inputs', 'configurations'], 'for every metadata value a remote can produce, every prefix, every pair of local timezones',
  'the tests encode one fixed metadata per codec and read back two fields, in one timezone',
  ['augpathlib/meta.py', 'augpathlib/core.py'],
  [('attribute codec', 'meta.py _PathMetaAsXattrs'), ('blob', 'meta.py PathMeta.as_metastore/from_metastore'),
   ('attribute storage', 'core.py XattrHelper')],
  technique='round trip oracle over recorded executions of the real codec under changing timezones',
  note='sampled field values; whole minute utc offsets; ext4 user attributes')
p('C02', 'A placeholder symlink reads back as the metadata it was written from',
  'Encoding metadata as a placeholder symlink either is refused with an error or produces a dangling, relative, '
  'self-referential link from which exactly the same metadata is read back, whatever characters occur in names and ids. '
  'Ordinary names and ids (dots, slashes in ids, spaces, unicode, punctuation) are never refused. A renamed placeholder '
  'is reported as such when the name is asked to match and is otherwise still readable.',
  ['inputs', 'configurations'], 'for every metadata value, hostile strings in every string field, every local name and timezone',
  'the tests use one metadata with fixed plain values',
  ['augpathlib/meta.py'],
  [('placeholder codec', 'meta.py _PathMetaAsSymlink')],
  technique='round trip oracle over real symlinks with hostile inputs',
  note='sampled strings over the separators, escapes and sentinels of the format')
p('C03', 'Metadata written by every earlier format version stays readable',
  'Placeholders in every released layout (original and versions 1 to 6), attribute sets with textual or binary '
  'timestamps, and database blobs written by earlier releases decode to exactly the metadata they were written from, '
  'in any local timezone. A placeholder of an unknown version, or with a field that cannot be what it says, is refused with an error.',
  ['inputs', 'histories'], 'for every released layout and every metadata representable in it',
  'the tests only read what the current writer writes',
  ['augpathlib/meta.py'],
  [('version tables', 'meta.py _PathMetaAsSymlink.versions / from_parts'),
   ('legacy timestamps', 'meta.py _PathMetaAsXattrs.decode')],
  technique='independent frozen writers plus literal golden placeholders as oracle',
  note='layouts taken from the repository at the pinned commit')
p('C04', 'Metadata objects behave as values',
  'Two metadata objects are equal exactly when every field is equal, no matter how they were made (constructed, decoded, '
  'copied, pickled) and whether or not their fields have been read. Item, key, subscript and attribute access agree, an '
  'object is false exactly when no field is set, and looking at one never changes it.',
  ['inputs'], 'for every pair of metadata values and every route by which one can be made',
  'the tests compare two fields of one object',
  ['augpathlib/meta.py'],
  [('equality and mapping interface', 'meta.py PathMeta')],
  technique='value law monitors over generated pairs',
  note='sampled values')

p('C05', 'Merging remote metadata keeps what is still true and drops what is not',
  'When cached metadata is updated with newer metadata for the same or a new identity, every field the newer metadata '
  'provides wins, fields it does not mention are kept only while the content is unchanged (created, updated, size, '
  'checksum and file id all agree where both are known), and a changed identity is remembered as the old id. The merge '
  'reports exactly whether content changed, is idempotent, mutates neither input, and what ends up on disk after a '
  'refresh is the merged value and nothing else.',
  ['inputs', 'histories'], 'for every pair of old and new metadata, in memory and through a cache on disk',
  'the tests merge a handful of hand written pairs in memory',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/meta.py'],
  [('merge', 'caches.py CachePath._update_meta / _meta_updater'), ('replacing attributes', 'core.py XattrHelper.setxattrs')],
  technique='independent merge oracle over recorded merges in memory and on disk',
  note='sampled pairs of field values')
p('C06', 'Metadata and placeholders are never lost when replaced or thrown away',
  'Writing metadata over an existing placeholder keeps the newer of the two and never replaces one that knows its size by '
  'one that does not. A placeholder, file or directory that is displaced or crumpled survives, whole and readable, in the '
  'trash; nothing already in the trash is overwritten, and no placeholder is ever created over a real file or directory.',
  ['histories', 'inputs'], 'for every history of metadata writes and deletions on a path',
  'the tests crumple one file and replace one placeholder',
  ['augpathlib/caches.py'],
  [('placeholder replacement', 'caches.py SymlinkCache.meta'), ('trash', 'caches.py CachePath.trash / crumple')],
  technique='ledger of everything ever written compared with the disk after every step',
  note='sampled histories of up to 7 steps')
p('C07', 'Updates from the remote never destroy bytes that only exist locally',
  'A fetched file that was edited locally is recognised as changed, and neither refresh, update nor a repeated '
  'bootstrap, whatever happened remotely (new content, rename, move, deletion, failure in the middle of a download), '
  'makes the edited bytes unrecoverable from the project directory. A file whose content is unchanged locally is never '
  'reported as a conflict and is brought up to date with the remote.',
  ['histories', 'fault_sequences'], 'for every combination of local edit, remote change and remote fault',
  'the tests never edit a file locally and change it remotely',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
  [('local change detection', 'core.py LocalPath.content_different'), ('update', 'remotes.py RemotePath.update_cache')],
  technique='conservation monitor: bytes that only existed locally are searched for on disk after every operation',
  note='one local replica, sampled histories, injected remote faults')
p('C08', 'Moving a cached path moves content and identity together and clobbers nothing',
  'When a path was renamed or moved remotely, or is moved directly, the local file, directory (with everything below it) or '
  'placeholder ends up at the new place with the same bytes, metadata and id and nothing remains at the old place; no '
  'other path changes and missing parent directories get the identity they have remotely. A move onto any occupied '
  'place, or of a directory into itself, fails and leaves everything exactly as it was; no id ever exists twice.',
  ['histories', 'inputs'], 'for every history of moves, renames, swaps and collisions',
  'the tests move one file to one free place',
  ['augpathlib/caches.py', 'augpathlib/remotes.py'],
  [('move', 'caches.py CachePath.move'), ('finding out about moves', 'remotes.py RemotePath.update_cache')],
  technique='whole project ledger of ids, bytes and metadata compared around every move',
  note='sampled histories')

p('C09', 'Bootstrap makes the local project mirror the remote and can be repeated',
  'A recursive bootstrap produces exactly the directories and placeholder files of the remote, each at its place with its '
  'id and metadata and no content downloaded; repeating it, also from a new process or after a failure part way, changes '
  'nothing that is in agreement. After remote changes a repeated bootstrap adds what is new, restores lost placeholders, '
  'updates changed ones and moves renamed directories with everything in them (removed ones go to the trash), while fetched, '
  'edited and untracked local content survives and no id is in two places, also when something else now has the place that a file had '
  'before or files trade places. Restrictions to a subtree, only, skip and sparse create exactly what they '
  'allow, and metadata without an id or over existing metadata is refused without effect.',
  ['histories', 'fault_sequences', 'configurations'], 'for every remote tree, sequence of remote and local changes, restriction and failure point',
  'no test bootstraps anything',
  ['augpathlib/caches.py', 'augpathlib/remotes.py'],
  [('bootstrap', 'caches.py CachePath._bootstrap / _bootstrap_recursive'), ('sparse marks', 'core.py EatPath._sparse_root')],
  technique='reference model of the remote compared with the whole local project after every bootstrap',
  note='sampled trees of up to 15 nodes and 3 rounds of changes; renames and removals of single files are not synchronised by bootstrap and not claimed; directories that trade names in a cycle are only checked for loss')

p('C10', 'A fetch delivers exactly the remote content or says that it did not',
  'Fetching turns a placeholder (or refreshes a fetched file) into a real file with exactly the bytes the remote serves while '
  'its metadata and id stay as they were; content that does not match the cached checksum is kept but flagged once, content '
  'of the wrong size or a failing download is an error. After any failure, at any chunk, the metadata is still on disk, what '
  'is left never passes for the remote content, and fetching again succeeds. Files over the size limit, and directories, are '
  'not touched and nothing is requested for them.',
  ['inputs', 'fault_sequences', 'histories'], 'for every content, chunking, checksum cypher, size limit and point of failure',
  'the tests fetch one file from a remote that works',
  ['augpathlib/caches.py', 'augpathlib/core.py'],
  [('fetch', 'caches.py CachePath.fetch'), ('writing', 'core.py LocalPath.data setter')],
  technique='fault injection at every chunk with byte and metadata oracles on disk',
  note='in memory remote; sizes up to 1 MB; a download that is cut off is covered here, a process that dies in C26')
p('C11', 'Local reads, writes and copies are exact and never clobber',
  'Data written in any chunking is read back exactly, whole, in chunks of at most the chunksize, or in any ranges, and writing '
  'keeps inode, mode, attributes and cached metadata of an existing file. A source that fails before its first chunk leaves '
  'the file as it was or absent, and errors are never swallowed. Copies equal their source, go nowhere that already exists '
  '(file, directory, placeholder or dangling link) unless forced, never damage the source, not even when it is its own target, '
  'and carry cached metadata only when asked to.',
  ['inputs', 'fault_sequences'], 'for every content, chunking, range, existing target and point of failure',
  'the tests copy one small file',
  ['augpathlib/core.py'],
  [('data', 'core.py LocalPath._data / _write_chunks / _data_setter'), ('copy', 'core.py copy_to / copy_from / copy_outto / copy_infrom')],
  technique='byte oracle and full directory comparison around every operation',
  note='sampled sizes around chunk boundaries; posix only')

p('C12', 'Checksums and etags depend only on the content',
  'The checksum of a file is the digest of its bytes under the cypher that was asked for, else that of its project, else the '
  'default, plus any additional cyphers in order, whatever the reading chunksize; the etag equals the part-wise digest and '
  'count for its chunk size no matter in which pieces data arrived or how often a digest was taken in between. What has no '
  'content has neither, and metadata of a file that was rewritten never repeats a previous digest. Validation changes the '
  'metadata exactly when the digest or size disagrees with it, under the cypher recorded for that file, and flags once.',
  ['inputs', 'histories'], 'for every content, piece boundary, order of digests, chunksize, cypher and sequence of rewrites',
  'the tests hash a handful of fixed files once',
  ['augpathlib/core.py', 'augpathlib/utils.py', 'augpathlib/caches.py'],
  [('checksum', 'core.py AugmentedPath.checksum'), ('etag', 'utils.py etag'), ('validation', 'caches.py validate_file'),
   ('local metadata', 'core.py LocalPath._meta_maker')],
  technique='digests of recorded executions compared with whole-content digests computed independently',
  note='sampled; rewrites are given distinct file times')

p('C13', 'Recursive removal takes exactly what was named and refuses protected places',
  'rmtree of an absolute path removes that tree and nothing else: links are removed and never followed, not even ones that '
  'appear while it runs, and other names of hard links stay. Relative paths, top level and home directories, and the working '
  'directory and its ancestors are refused before anything is removed, however they are written, unless DANGERZONE is True. '
  'What cannot be removed raises, is skipped, or is reported to onerror once per affected path; rmdirtree removes exactly the '
  'directories that hold nothing but such directories.',
  ['inputs', 'fault_sequences'], 'for every tree, spelling of the path, failing entry and substitution during removal',
  'the tests remove a few small trees they made',
  ['augpathlib/core.py'],
  [('rmtree', 'core.py AugmentedPath.rmtree'), ('rmdirtree', 'core.py AugmentedPath.rmdirtree')],
  technique='complete snapshots around every removal, audit hook faults and substitutions between single removals',
  note='protected system paths are tried by an unprivileged process with every removal vetoed; a swap inside one lstat to '
       'listdir window is documented as unprotected and not claimed')
p('C14', 'Swap exchanges two paths atomically or changes nothing',
  'After swap, and after swap_carefree, each name holds exactly what the other held, inode, content, mode, attributes and '
  'cached identity included, for files, directories, links and special files and for relative and undecodable names; during '
  'an atomic swap neither name is ever missing. A swap that is refused or fails (missing, nested or on another device), at '
  'any of its steps, leaves both names as they were, opens nothing and leaves nothing behind; a process that dies in '
  'swap_carefree loses nothing.',
  ['inputs', 'fault_sequences', 'schedules', 'crash_points'], 'for every pair of objects, spelling, observer and point of failure',
  'the tests swap two files once',
  ['augpathlib/core.py', 'augpathlib/swap.py'],
  [('swap', 'core.py AugmentedPath.swap / swap_carefree'), ('renameat2', 'swap.py swap_linux')],
  technique='line tracer and concurrent observer process watching both names, fault and death at every rename',
  note='linux only; the observer sees sampled interleavings, the tracer every line')
p('C15', 'The working directory always comes back',
  'A with block on a directory runs inside of it and afterwards the process is where it was before, with the exception it '
  'ended with, for any nesting, also of the same path object, whatever happened to the working directory, the path or the '
  'stack in between. pushd and popd are a stack: popd(N) returns to and removes the Nth most recent entry, and a pushd or '
  'popd that cannot change directory changes neither directory nor stack.',
  ['inputs', 'histories', 'fault_sequences'], 'for every program of pushd, popd and blocks and every failing change of directory',
  'the tests enter one directory once',
  ['augpathlib/core.py', 'augpathlib/caches.py'],
  [('stack', 'core.py AugmentedPath.pushd / popd'), ('blocks', 'core.py AugmentedPath.__enter__ / __exit__, caches.py CachePath.__enter__')],
  technique='model of the directory stack run in step with random programs',
  note='single threaded, the working directory belongs to the process')
p('C16', 'Relative paths and child paths lead where they say',
  'relative_path_from leads from the place of the other path (the other itself when it is an ancestor, else its parent) to '
  'this path with no more steps up than necessary, so a link made from it resolves to the file; relative_path_to is the same '
  'seen from the other side, and commonpath is the deepest shared directory. In a project, joining a cached directory with a '
  'name or a remote object gives the cache with the identity and the place of that object, and a remote object knows its place.',
  ['inputs'], 'for every pair of paths, names, depth and mix of relative and absolute',
  'the tests relate one pair of paths',
  ['augpathlib/core.py', 'augpathlib/caches.py'],
  [('relative', 'core.py relative_path_from / relative_path_to / to_relative / commonpath'), ('joining', 'caches.py CachePath.__truediv__')],
  technique='online assertion of the path algebra and resolution on a real file system',
  note='lexical paths without .. components')

p('C17', 'Predicates agree with the file system and never choke on broken links',
  'exists, is_file, is_dir, is_symlink, is_broken_symlink and exists_not_symlink say what stat and lstat say for every object, '
  'link chain, loop, placeholder and unusable name: what is missing, looping or below a file is False and every other error '
  'surfaces; access, readlink and readlink(raw=True) agree with the system. The mimetype and encoding of a path follow from its '
  'name, or from being a directory, no matter how the path is written.',
  ['inputs', 'configurations'], 'for every file system state, user and spelling of a path',
  'the tests look at a file, a directory and one broken link as one user',
  ['augpathlib/core.py'],
  [('predicates', 'core.py AugmentedPath.exists .. exists_not_symlink / access / readlink'), ('types', 'core.py mimetype / encoding')],
  technique='differential monitor against lstat, stat, access and readlink as root and as an unprivileged user',
  note='posix only, mimetype by content (libmagic) is not covered')
p('C18', 'Extended attributes and sparse marks are stored exactly and inherited',
  'Attributes set through a path are what the system stores and what is read back, bytes for bytes, through links, relative '
  'and odd names and keys; each operation touches only its attribute, a missing attribute is NoStreamError, an ignored or a '
  'raised deletion as asked, and every other error surfaces unchanged. A path is sparse exactly when it or a directory above it '
  'was marked, for files, directories, placeholders, caches and relative paths, in this process and the next, and a mark '
  'changes no cached metadata.',
  ['inputs', 'histories'], 'for every sequence of operations, key, value, path and set of marks',
  'the tests set and read one attribute and mark one directory',
  ['augpathlib/core.py', 'augpathlib/caches.py'],
  [('attributes', 'core.py XattrHelper'), ('marks', 'core.py EatPath._sparse_root / is_sparse')],
  technique='shadow dictionary and operating system attributes compared after every operation',
  note='posix extended attributes; the NTFS and the marker file variants are not covered')
p('C19', 'The root of a project is found from inside and everything in it is listed',
  'find_cache_root of any path in a project, absolute or relative to any working directory, of a file, folder, placeholder, broken link, '
  'ignored or missing entry at any depth, is the root of that project, and outside of a project it is None, or NotInProjectError if asked to '
  'fail. The children of a folder are exactly the entries that the operating system lists, without the ignored ones directly in the root and '
  'none else (.git.txt is not .git, .git in a folder is not ignored); rchildren are all of them at every depth, each once, and never go '
  'through a link. An untracked path is skipped exactly when it is in an ignored entry of the root, and a cache lists what the remote has.',
  ['inputs'], 'for every tree, name, kind of entry, link and working directory',
  'the tests look at one tree with tracked files',
  ['augpathlib/caches.py', 'augpathlib/core.py'],
  [('root', 'core.py LocalPath.find_cache_root'), ('entries', 'core.py LocalPath.children, rchildren'), ('ignored', 'core.py LocalPath.skip_cache'),
   ('remote', 'caches.py _CachePath.children, rchildren')],
  technique='listings and roots compared with os.listdir and os.walk over random trees',
  note='the entries of the root are asked for by its absolute path; projects inside of projects are not covered')
p('C20', 'Local metadata is accurate and never stale',
  'The metadata of a local path has the name, size, times, inode, owner, mode and identity that stat reports and the digest of '
  'the bytes it has at that time, also when the same object was asked before any sequence of rewrites, replacements, mode, '
  'owner and time changes, or while the file was being read; what does not exist has an id and a name only, and metadata '
  'without a checksum reads no content. The output of stat parses to what lstat says for every name, time and timezone, file '
  'sizes read as the number they are, and the machine identity is the same in every process.',
  ['inputs', 'histories'], 'for every history of a path, name, time and cypher',
  'the tests look at the metadata of a fresh file',
  ['augpathlib/core.py', 'augpathlib/utils.py'],
  [('metadata', 'core.py LocalPath._meta_maker'), ('stat', 'utils.py StatResult, core.py LocalPath._stat'), ('sizes', 'utils.py FileSize'),
   ('identity', 'utils.py _bind_sysid_')],
  technique='metadata compared with stat and hashlib after every step of random histories',
  note='changes within one timestamp granule of the kernel cannot be noticed and are not generated')

p('C21', 'A path in a git repository is the file and the history git says',
  'A path belongs to the innermost repository or worktree around it, with the same relative path however it is written (relative, '
  'with .., before it exists) and names in it are never patterns. show is byte for byte the version in a commit, the index or the '
  'file, and fails for what is not there; commits and latest_commit are those that changed the path (or something under it, or the '
  'link itself), newest first; modified, indexed, has_uncommitted_changes and diff are true exactly when the two sides differ and '
  'give the right sides. init is refused inside of a repository or over one without effect; clones go where clone_path says, and '
  'the links to the hosted repository name exactly that repository, version and file.',
  ['inputs', 'histories'], 'for every history of a repository, file name, version, nesting of repositories and way to write the path',
  'the tests look at plain names in one small repository',
  ['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
  [('repository of a path', 'repo.py RepoHelper.working_dir, repo, repo_relative_path'), ('versions', 'repo.py show'),
   ('history', 'repo.py commits, latest_commit'), ('changes', 'repo.py diff, _do_diff'), ('links', 'repo.py _remote_uri, clone_path')],
  technique='random histories; every answer compared with a model of the history, sampled against git itself',
  note='names GitPython itself cannot read from a diff (undecodable, newline, leading colon) are left out of diffs')

p('C22', 'Commits take exactly one path and another branch is left as it was found',
  'commit makes a commit on top of HEAD (or the first one) whose tree is that of HEAD with what is at the path replaced by what the '
  'index has there, with the given message and author date, and moves only the current branch; the index, staged changes of other '
  'files, the working tree, stashes and other references stay as they are, a hook sees exactly what is to be committed, and one that '
  'refuses leaves everything in place. Adding stages what git add would: additions, changes, modes, links and removals, not what is '
  'ignored inside of folders. Entering a reference shows exactly its tree, and leaving it, normally, by any exception, or nested, '
  'brings back branch, index, working tree, untracked and ignored files, keeps earlier stashes and what was changed inside is stashed '
  'or committed, never lost; a checkout that fails leaves everything as before.',
  ['inputs', 'histories', 'fault_sequences'], 'for every state of index, working tree, stash and branches, path, message, date and nesting of references',
  'the tests make plain commits in a clean repository and never enter a reference with changes',
  ['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
  [('commit', 'repo.py commit, commit_from_working_tree, add_index'), ('reference', 'repo_patch.py _Reference.__enter__, __exit__'),
   ('names', 'repo_patch.py getRef, currentRefName')],
  technique='snapshots of commit, index, working tree, stashes and references before and after every step of random histories',
  note='names GitPython cannot read from an index and states git stash itself does not bring back are left out')

p('C23', 'Package versions only move forward and tags belong to their own package',
  'The next version for any phase and component is either refused (going back from a prerelease, post of something that is not a '
  'release, a component the version does not have) or strictly newer, of the same epoch, of the kind that was asked for and exactly '
  'the one the phase means; the version it was made from is unchanged. Any path in a package, however written, finds the setup file, '
  'version, module and tag of that package, and a path that is in none has none: the nearest release tag before HEAD of that very package also when others have similar '
  'names, the newest release on pypi and the newest tag on github. Commits since the last release are those that touch the files of '
  'the package after that tag, all of them if there is none.',
  ['inputs', 'histories'], 'for every version, phase and component, layout of packages in a repository, names and history of tags',
  'there are no tests of packages',
  ['augpathlib/package.py'],
  [('transitions', 'package.py next_version, logic, cons_next'), ('places', 'package.py folder, setup_file, setupfu, module'),
   ('tags', 'package.py tag, tag_latest_github, version_tag'), ('releases', 'package.py version_latest_released, version_next, commits_since_last_release')],
  technique='transition table and order of versions as oracle; packages in random repositories compared with a model of tags and changes',
  note='pypi and github are stand-ins; number of a prerelease after another prerelease of a different kind is only required to be newer')

p('C24', 'A path into a zip file shows exactly what is in the archive as it is now',
  'A path is inside of an archive if one of its parents, or itself, is an archive by content, whatever it is called; anything else, '
  'also something missing, a folder or another file with that suffix, behaves like a plain path. Inside, what exists is exactly the '
  'members and the folders they imply, the last of several members of a name, with the content that was put in, whole or in chunks, '
  'to any number of readers and threads at the same time, also when others stop early; the list of all that is inside and the children '
  'of each folder are complete and without repeats, and what is not there does not exist and cannot be opened. When the archive is written '
  'again, extended, replaced, removed or turned into something else, also while the same path object is kept, or when a relative path '
  'leads elsewhere after changing directory, the answers are those of the archive there is now.',
  ['inputs', 'histories', 'schedules'], 'for every archive, history of its file, spelling of its path and number of readers',
  'the only test lists one fixed archive',
  ['augpathlib/zip.py'],
  [('where an archive begins', 'zip.py ZipHelper.zip_path, zip_relative_path'), ('members', 'zip.py ZipInternalPath._new, __new__, rchildren, children'),
   ('reading', 'zip.py ZipInternalPath.open, data'), ('freshness', 'zip.py ZipHelper.ZipInternalPath')],
  technique='model of the members that were written as oracle over random histories of archives; interleaved and threaded readers',
  note='members with absolute or .. names are left out')

p('C25', 'Paths on another machine read through ssh give what is there, whatever its name',
  'For every file and folder behind ssh, also with spaces, quotes, wildcards, control characters or anything else in its name, '
  'exists, is_file, is_dir, stat, access, checksum, meta and data say what is on the other machine at that moment, and nothing but '
  'the requested path is read: no name is ever taken for a command, option or pattern, and looking never changes anything there. '
  'What is missing or closed gives False or an error, never the answer for something else; content that could not be read to '
  'its end raises; answers to slow commands and to several threads are not mixed up; and a path maps to its place in the local tree and back.',
  ['inputs', 'fault_sequences', 'histories', 'schedules'], 'for every name, content, mode, failure of the connection and sequence of questions',
  'the tests need a real ssh server and are skipped without one',
  ['augpathlib/remotes.py', 'augpathlib/utils.py', 'augpathlib/caches.py'],
  [('session', 'remotes.py SshRemote._ssh'), ('content', 'remotes.py SshRemote.data'), ('stat', 'remotes.py SshRemote.stat, utils.py StatResult'),
   ('quoting', 'remotes.py SshRemote._quote'), ('access', 'remotes.py SshRemote.access'), ('paths', 'remotes.py SshRemote.rpath, _parts_relative_to')],
  technique='the real ssh remote runs against a stand-in for ssh (real shell and coreutils as another user), compared with the tree seen without it',
  note='bash with GNU coreutils on the other side, C or UTF-8 locale; names that contain the prompt of the session are excluded; a path that '
       'is too long for one line may be refused with CommandTooLongError; children, refresh and writing are unfinished there and not claimed')

p('C26', 'A process that ends in the middle of an operation loses nothing that matters',
  'Wherever a process ends during a fetch, a bootstrap, a refresh, an update of the cache, a move or the removal to the trash, '
  'everything that was there before is still there: all local content, edited or not, that was not asked to be replaced, and a '
  'path with cached metadata for every id. A new process can carry on: it can bootstrap and fetch again, and then the project '
  'is as it would have been without the crash, every id with the content and the metadata that belong to it.',
  ['crash_points', 'histories'], 'for every operation, project, remote change and point at which the process ends',
  'no test ends a process',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
  [('fetch', 'caches.py CachePath.fetch'), ('move', 'caches.py CachePath.move'), ('metadata', 'caches.py EatCache._meta_setter, SymlinkCache.meta'),
   ('trash', 'caches.py CachePath.crumple'), ('bootstrap', 'caches.py CachePath._bootstrap_recursive')],
  technique='crash injection before every file system change of a forked process, disk compared before, after and after recovery',
  note='every change of the file system up to 60 per operation is a crash point; what was written before is kept (no power loss); two known findings in move')

p('C27', 'Several processes and threads can work on one project at the same time',
  'Fetching two different files, or the same file twice, looking at metadata while any operation runs, and two bootstraps of an '
  'unchanged tree never disturb each other: none of them fails because of the other, a file never appears with incomplete content '
  'or without its metadata, and afterwards the project is what one after the other would have left, also in which files are marked '
  'as a checksum mismatch. Whatever two other operations (bootstrap, update, refresh, removal to the trash) do at the same time, '
  'content that only exists locally is kept, and a process that starts afterwards can bootstrap and fetch, and finds every id.',
  ['schedules', 'histories'], 'for every pair of operations and every point at which one hands over to the other',
  'the tests run one operation at a time',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
  [('fetch', 'caches.py _CachePath.fetch'), ('metadata', 'caches.py EatCache._meta_setter, SymlinkCache.meta'),
   ('bootstrap', 'caches.py _CachePath._bootstrap_recursive'), ('objects', 'caches.py _CachePath.data'), ('trash', 'caches.py _CachePath.crumple')],
  technique='controlled two-process and two-thread schedules at file system changes, end state compared with both serial orders',
  note='one or two switches per schedule, at changes of the file system, chunks of content and, for processes, reads of the library; concurrent in-place replacement of the same '
       'local file (refetch, refresh) and concurrent moves are only held to the weak part')

p('C28', 'What a user adds to a project is kept and does not disturb it',
  'Untracked files, folders, pipes and links that a user puts in a project, whatever their names and wherever the links lead (to tracked '
  'files and folders, to the root, outside, to nowhere, to themselves), change nothing about bootstrap, fetch, refresh, update, crumple and '
  'move: these succeed and leave the tracked part exactly as they leave it without them, the additions are unchanged, get no identity and stay '
  'in the folder they are in, also when that folder moves. Nothing outside of the project changes through a link. If the remote wants the place '
  'of an addition its content is still somewhere in the project afterwards.',
  ['inputs', 'histories'], 'for every set of additions, history of the remote and operation',
  'the tests have no untracked files and links in a project',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/meta.py'],
  [('bootstrap', 'caches.py _CachePath._bootstrap_recursive, _bootstrap_existing_dirs'), ('links', 'meta.py _PathMetaAsSymlink.from_symlink'),
   ('metadata', 'caches.py SymlinkCache.meta'), ('removal', 'caches.py _CachePath.crumple')],
  technique='differential runs on two copies of a project, with and without additions',
  note='additions that carry the identity of something tracked (copies with their attributes, hard links) are not covered')

p('C29', 'A project is set up over nothing else, found again, and projects do not mix',
  'Setting up a project (dropAnchor, smartAnchor, anchorTo) makes one where there is nothing or an empty folder and finds the project with that '
  'id if there is one, in the folder it was told (absolute, relative, text, the working directory) wherever the process goes later; over anything else '
  '(content that is not tracked, hidden or not, a file, a link, a project of another id) it is refused, the session is not anchored and nothing on disk '
  'changes. A session that has a project gets no second one, what failed or was interrupted half way can be set up again, and objects that are there are never '
  'replaced by a link to a shared directory. Two projects used by one process, also with the same ids, each end as if the other was not there.',
  ['inputs', 'histories', 'crash_points'], 'for every thing in the place of a project, way to set it up and interleaving of two projects',
  'the tests set up one project in an empty folder with an absolute path',
  ['augpathlib/remotes.py', 'augpathlib/caches.py', 'augpathlib/core.py'],
  [('set up', 'remotes.py RemotePath.dropAnchor, smartAnchor, anchorTo, anchorToCache'), ('init', 'core.py LocalPath.cache_init'),
   ('bind', 'caches.py _CachePath.anchorClassHere'), ('objects', 'caches.py _CachePath.local_data_dir_init')],
  technique='exhaustive table of what is in the place, differential runs of two projects together and alone, faults and deaths during set up',
  note='after smartAnchor in a new process the caller binds the cache class to the anchor')

p('C30', 'Single objects get their place, folders are made on both sides',
  'RemotePath.cache_init gives one object of the remote its place: with parents=True every parent folder that is missing is made with its own '
  'identity, without it a missing parent is refused with FileNotFoundError and nothing is made; doing it again changes nothing, what is not on the remote gets no place, '
  'after a failure of the remote it can be repeated, and listing the children of a cached folder gives what the remote has there its place. mkdir_cache makes exactly the missing parents, mkdir_remote makes a folder (with parents=True all missing '
  'ones) at the same path on both sides with one identity, and nothing on either side if that is refused. After every step the project has exactly these places '
  'with the metadata of the remote, user files and edits are untouched, and a later bootstrap only adds what is missing.',
  ['histories', 'fault_sequences'], 'for every sequence of these operations, situation on disk and failure of the remote',
  'the tests place one object under the root of an empty project',
  ['augpathlib/remotes.py', 'augpathlib/core.py', 'augpathlib/caches.py'],
  [('place', 'remotes.py RemotePath.cache_init, _parts_relative_to'), ('folders', 'core.py LocalPath.mkdir_cache, mkdir_remote, cache_init'),
   ('child', 'caches.py _CachePath.__truediv__, _make_child')],
  technique='random histories compared with a model of the whole project after every step',
  note='objects that have an older place, or a parent with one, are brought to the new one by bootstrap and refresh (C08), not by cache_init')

p('C31', 'What is shown about a file is what is recorded about it',
  'The table of metadata (as_pretty) has every field that is set exactly once with its value and nothing else, under the title it was given or the name of '
  'the path; the table of a difference has the fields of both sides with their values in the same row, and a red title exactly if the content is '
  'different. A readable size (in tables, placeholders and FileSize) is in the largest unit that fits and rounded to what is shown, and the name that '
  'is made of an identifier for the trash has no character that is special in paths.',
  ['inputs'], 'for every metadata, pair of metadata and size',
  'the tests print one table and look at a few sizes',
  ['augpathlib/meta.py', 'augpathlib/utils.py'],
  [('tables', 'meta.py _PathMetaAsPretty, _PathMetaAsPrettyDiff'), ('sizes', 'utils.py FileSize.hr, mb'), ('placeholder', 'meta.py _PathMetaAsSymlink.as_symlink'),
   ('names', 'utils.py fs_safe_id')],
  technique='generated values, the output is read back and compared with the fields',
  note='values with spaces, line ends, separators of the table or wide characters are only searched for, not read back')

p('C32', 'An augmented path is a path',
  'Whatever a path of the standard library can be asked (making, joining and comparing paths, names, parents and suffixes, copying and pickling, and every '
  'operation on the file system) gives the same answer, the same kind of error and the same effect on the disk when an augmented path is asked, also with '
  'arguments that are text, paths of the standard library or of another class, for any path text and any state of the disk. Every path that comes out of it is of the '
  'class of the path that was asked. The same holds for the paths of a cache in a project, and each one that is reached (parents, siblings, what is in a folder) '
  'has the identity of the object that is at that place, or none if none is.',
  ['inputs', 'histories'], 'for every path text, class, argument form and sequence of file operations',
  'the tests use a few methods on a few ordinary paths',
  ['augpathlib/core.py', 'augpathlib/caches.py', 'augpathlib/repo.py', 'augpathlib/zip.py'],
  [('classes', 'core.py AugmentedPath, EatPath.__new__, LocalPath.__new__'), ('caches', 'caches.py _CachePath.__new__, __truediv__, CachePath'),
   ('overrides', 'core.py AugmentedPath.rename, resolve, exists, is_file, is_dir, is_symlink')],
  technique='differential: twin folders, one used through pathlib and one through the class, compared after every call',
  note='rename returns nothing, resolve takes no argument and readlink gives a pure path or text; classes made at run time can only be pickled if they can be found')

p('C33', 'An interrupted use of a git repository loses nothing',
  'If the process ends at any point of a commit, an addition to the index, or the (nested) use of a reference as a context, everything that was there can still be had: '
  'the content of every file and of every entry of the index that was not replaced on purpose is in the working tree, the index, a commit that a reference leads to or a listed stash, '
  'older stashes are where they were and no branch moved that was not committed to. After an interrupted commit or addition the working tree is as it was, HEAD is '
  'either where it was or at the whole commit with the index it should have, and (once the lock git left is removed) doing it again (the commit alone if a removal was already added) gives what doing it once gives; after an '
  'interrupted use of a reference HEAD is at the original or the wanted branch, and the next use of a reference loses nothing either.',
  ['crash_points'], 'for every repository state, operation and point at which the process ends',
  'the tests never interrupt a git operation',
  ['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
  [('commit', 'repo.py RepoHelper.commit, commit_from_working_tree, add_index'), ('context', 'repo_patch.py _Reference.__enter__, __exit__, _stash_all, _stash_pop')],
  technique='crash injection at recorded events (changes of the file system, git commands), examination of what is left and a new process that goes on',
  note='git commands themselves are taken to be atomic, a crash is injected before and after each of them; no power loss')

# ------------------------------------------------------------------- output
NOT_APPLICABLE = []


def main():
    (VERIF / 'properties.jsonl').write_text(''.join(json.dumps(x['prop'], ensure_ascii=False) + '\n' for x in P))
    checks = []
    for x in P:
        i = x['prop']['id']
        if not (VERIF / 'vp' / 'checks' / f'{i.lower()}.py').exists():
            continue
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 run.py {i}',
                           thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
                           evidence_file=f'evidence/{i}.json', technique='runtime monitoring: ' + x['technique'],
                           level=x['level'], level_note=x['note']))
    m = dict(version=1, setup_cmd='python3 -c "import ast,glob; [ast.parse(open(f).read()) for f in glob.glob(\'vp/**/*.py\', recursive=True)]"', checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
             notes='Each check imports the library from /repo as it is at that moment; no hooks are compiled into /repo.')
    (VERIF / 'MANIFEST.json').write_text(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
    print(len(P), 'properties', len(checks), 'checks')


main()
