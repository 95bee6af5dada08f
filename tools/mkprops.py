#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
V='pkg/python/pep440/01_version_scheme.go'; S='pkg/python/pep440/02_version_specifiers.go'; T='pkg/python/pep440/03_tail.go'
B='pkg/python/pypa/bdist/binary_distribution_format.go'
p('C01','Version comparison is the PEP 440 total order',
  "Comparing any two valid versions gives the order PEP 440 defines: epoch, then zero-padded release, then dev < pre (a < b < rc) < final < post, with dev releases before what they precede and local labels breaking ties (absent < text < number, longer > prefix). The sign of the comparison is reflexive, antisymmetric and transitive, equal exactly for versions PEP 440 calls equal, and comparing never panics. The final / pre-release / major-minor-micro queries agree with that same reading of the version.",
  ['inputs'],'all pairs and triples of valid versions, release and local segments of any length',
  'Tests compare a few hand-written ascending lists; order laws quantify over all triples and unbounded segment lists.',
  [V],[('PublicVersion.Cmp, LocalVersion.Cmp and the per-part comparators',V)],['sign of Cmp'])
p('C02','Specifier clauses match exactly the versions PEP 440 says they match',
  "For every clause and candidate version: == and != compare zero-padded and ignore the candidate's local label unless the clause has one; ==V.* / !=V.* compare only the parts V gives; ~=V means >=V and ==(V without last release segment, suffixes dropped).*; <=, >=, <, > follow the version order ignoring the candidate's local label, and >V never matches a post-release of V unless V is one. != clauses are exact complements of == clauses, and a comma-separated specifier matches exactly when every clause does.",
  ['inputs'],'all operators, clause versions and candidate versions',
  'The tables in the tests sample a few dozen (clause, version) pairs.',
  [S,V],[('SpecifierClause.Match / match* functions',S),('Specifier.Match conjunction',S)],['Match result'])
p('C03','Specifier text is parsed and printed without changing its meaning',
  "Parsing any text never panics; each clause of an accepted specifier has the operator and version written in the text, with or without surrounding blanks, and clauses PEP 440 forbids (=== , local labels with ordered or prefix operators, dev with prefix match, one-segment ~=) are rejected. Printing a parsed specifier and parsing it again gives clauses that match the same versions.",
  ['inputs'],'all specifier strings; all parsed specifiers',
  'Tests only parse well-formed, blank-separated clauses.',
  [S],[('ParseSpecifier / parseSpecifierClause',S),('SpecifierClause.String',S)],['parsed clauses','String()'])
p('C04','Version text round-trips and normalizes to one canonical form',
  "Every string of the PEP 440 grammar (any accepted spelling, case, separator, v prefix, blanks) parses to the version it denotes, and every other string is rejected, without panics. Printing a version and parsing the result gives back an equal version; normalizing is idempotent and never changes how a version compares.",
  ['inputs'],'all strings; all versions with segments that fit the integer types',
  'Tests list sample spellings; quick-check samples a bounded random set and does not cover alternative spellings.',
  [T,V],[('parseVersion and its regular expression',T),('String / Normalize',V)],['ParseVersion','String'])
p('C05','Selecting among candidates returns the best allowed match',
  "Selecting from any list of candidate versions with any exclusion policy returns a candidate that satisfies the specifier and is not excluded, and no other such candidate compares higher; only if every satisfying candidate is excluded is the highest excluded one returned, and nil only if none satisfies. Policies mean what they say: pre-releases are excluded unless listed, yanked versions are excluded, combined policies allow only what all of them allow.",
  ['inputs'],'all candidate lists (any length and order), specifiers and exclusion policies',
  'There is no test of selection with a non-nil policy; list length and order are unbounded.',
  [S,'pkg/python/pep592/yank.go'],[('Specifier.Select',S),('ExcludePreReleases / MultiExcluder / ExcludeYanked',S)],['Select result'])
p('C06','Requires-Python requirements are judged as PEP 345 defines',
  "For every interpreter version and every Requires-Python text: a bare or == version matches that version and its zero-padded or longer final releases but no suffix it does not mention, != is the exact complement, <V additionally excludes versions having V as prefix, <=, >=, > follow the version order, and a comma list is a conjunction. Unparsable requirement text is reported as an error and never panics.",
  ['inputs'],'all requirement strings and interpreter versions',
  'The test table samples the combinations.',
  ['pkg/python/pep345/metadata.go'],[('VersionSpecifierClause.Match','pkg/python/pep345/metadata.go'),('parseVersionSpecifierClause','pkg/python/pep345/metadata.go')],['HaveRequiredPython'])
p('C07','Compatibility tags match exactly by their expanded sets',
  "A compressed tag denotes exactly the product of its dot-separated parts; an installer supports a tag exactly when some expansion of one of its tags equals some expansion of the given tag, and the reported preference is the 1-based position of the first such tag (one past the end if none). Parsing accepts exactly three dash-separated parts and printing inverts it.",
  ['inputs'],'all tags and installer lists of any length',
  'Tests exercise a few tag strings; the nested searches range over unbounded lists.',
  ['pkg/python/pep425/tags.go'],[('Decompress / Intersect / Supports / Preference','pkg/python/pep425/tags.go')],['Supports','Preference'])
p('C08','Wheel file names parse and generate consistently',
  "A parsed wheel file name has the distribution, version, optional build tag and compatibility tag spelled in it, and anything else is rejected without panicking; a generated file name parses back to the same version, build tag and compatibility tag with the distribution's runs of - _ . replaced by _. Build tags are totally ordered: absent first, then by number, then by remaining text.",
  ['inputs'],'all file names; all file name data',
  'Tests sample a few names; the order on build tags is untested.',
  [B],[('ParseFilename / GenerateFilename',B),('BuildTag.Cmp',B)],['ParseFilename','GenerateFilename','BuildTag.Cmp'])
p('C09','Index selection yields a supported wheel of the best allowed version',
  "For any index content, the selected link is a wheel whose tag the target supports, whose version satisfies the specifier and is the best one under the exclude-pre-releases-and-yanked policy, and among the wheels listed with that spelling of the version it has the most preferred tag. If no listed file qualifies an error is returned, and links that are not wheels or not supported never influence the result.",
  ['inputs','configurations'],'all index listings, supported-tag lists and specifiers',
  'The only tests of it need the network and are not run; index content is unbounded.',
  ['pkg/python/pypa/simple_repo_api/pypa_repo_api.go'],[('Client.SelectWheel','pkg/python/pypa/simple_repo_api/pypa_repo_api.go')],['SelectWheel result'])
p('C10','A wheel is installed only if its RECORD vouches for every member',
  "A wheel is accepted for installation only if every non-directory member other than RECORD itself and its detached signatures is listed in RECORD with a sha256-or-stronger digest and a size that both equal those of the bytes that get installed. Any missing entry, wrong digest or size, weak or unknown algorithm, malformed row, entry for an absent file, or ambiguous duplicate member makes installation fail.",
  ['inputs'],'all wheel archives',
  'No test installs a wheel offline; the archive space is unbounded.',
  [B],[('wheel.integrityCheck',B),('wheel.Open',B)],['InstallWheel error'])
p('C11','Every wheel member lands at its scheme location and nowhere else',
  "Installing puts each member of the wheel root under the purelib or platlib directory as the wheel's metadata says, each NAME.data/<key>/ member under the scheme directory for that key, drops the old RECORD and its signatures, and otherwise preserves content; every parent directory is present and every entry has the platform's owner. An unknown data key, an incompatible major Wheel-Version, or a member whose path would leave the installation directory is rejected.",
  ['inputs','configurations'],'all wheels and platform schemes',
  'No offline test runs an installation.',
  [B,'pkg/python/pypa/bdist/ioutil.go','pkg/python/pypa/bdist/misc.go'],[('installToVFS spread loop',B),('InstallWheel parent directories and chown',B),('rename / create','pkg/python/pypa/bdist/ioutil.go')],['layer entries'])
p('C12','The installed RECORD lists every installed file with true digests',
  "The RECORD written by the recording hook has exactly one row per installed non-directory file plus its own row, paths relative to the directory holding the .dist-info; each row of a file other than compiled bytecode carries the digest (of the requested algorithm) and size of that file's recorded content, and rows are sorted. INSTALLER, REQUESTED and direct_url.json, when asked for, are installed with exactly the requested content, direct_url.json being valid JSON for the given data.",
  ['inputs'],'all sets of installed files whose names have no line breaks',
  'No offline test runs the hook.',
  ['pkg/python/pypa/recording_installs/recording_installs.go','pkg/python/pep376/requested.go','pkg/python/pypa/direct_url/direct_url.go','pkg/python/pypa/direct_url/json.go'],
  [('Record / recordFile','pkg/python/pypa/recording_installs/recording_installs.go'),('jsonDumps','pkg/python/pypa/direct_url/json.go')],['RECORD content'])
p('C13','Installed scripts get the right interpreter line and permissions',
  "A script member starting with #!python (or #!pythonw) is installed with exactly that prefix replaced by #! and the console (graphical) interpreter, the rest of its bytes unchanged and its size field right, and is executable; all other members keep their bytes. Member permissions are normalized to directory 755, executable regular file 755, otherwise 644.",
  ['inputs'],'all script contents (any length, including shorter than the prefix) and attribute bits',
  'No offline test covers the rewriting.',
  [B,'pkg/python/pypa/bdist/ioutil.go','pkg/python/pypa/bdist/misc.go'],[('rewritePython / skipReader',B),('create, isExecutable','pkg/python/pypa/bdist/ioutil.go')],['layer entries'])
p('C14','Layers built from file lists are complete, ordered and time-clamped',
  "A layer built from any set of file references contains each of them exactly once with its name, metadata and full content; no entry has a timestamp after the clamp time and earlier timestamps are kept. Entries are ordered by path components, so every directory precedes everything under it and the order does not depend on the order of the input.",
  ['inputs'],'all finite sets of file references with distinct names, all clamp times (at the whole-second resolution of tar)',
  'The function has no tests.',
  ['pkg/fsutil/fileref.go'],[('LayerFromFileReferences','pkg/fsutil/fileref.go')],['tar entries'])
p('C15','A layer made from a directory mirrors it with the requested metadata',
  "The layer of a directory has one entry per file below it, named relative to it under the requested prefix, with its mode, symlink target, content and, for a file already written, a hard link to the first name. Requested ownership overrides apply to every such entry, prefix directories come first, outermost first, with the requested mode and ownership, and no timestamp exceeds the clamp time.",
  ['inputs','configurations'],'all directory trees, prefixes, ownership overrides and clamp times (at the whole-second resolution of tar)',
  'The function has no tests.',
  ['pkg/dir/dir.go'],[('LayerFromDir','pkg/dir/dir.go')],['tar entries'])
p('C16','Layer comparison ignores timestamps and nothing else',
  "Two layers are reported equal exactly when they have the same entries in the same order with equal metadata other than modification, access and change times and equal content of any length. Read errors are reported as errors, never as equality.",
  ['inputs','fault_sequences'],'all pairs of layers, all content lengths and read faults',
  'The function has no tests of its own.',
  ['pkg/fsutil/diff.go'],[('LayersEqualExceptTimestamps, readersEqual','pkg/fsutil/diff.go')],['result'])
p('C17','Squashing layers preserves what applying them one by one gives',
  "Applying the squashed layer on top of any base filesystem gives the same files, types, metadata and contents as applying the input layers one after another, including whiteouts, opaque whiteouts, replaced files and directories. (Hard links, and entries that lie under a symbolic link of the base or of a layer, are outside this statement.)",
  ['inputs','histories'],'all stacks of layers and all base filesystems',
  'Tests check about twenty hand-written stacks and compare entry lists, not the effect on a base.',
  ['pkg/squash/vfs.go','pkg/squash/squash.go','pkg/squash/readlayer.go'],[('fsfile.Get / Set','pkg/squash/vfs.go'),('loadLayers','pkg/squash/squash.go')],['squashed layer applied to a base'],
  [('fsfile tree','merged view of the layers, whiteout markers kept as children','pkg/squash/vfs.go')])
p('C18','Squashed layers are canonical and stay inside the image root',
  "The squashed output lists each path once, parents before children, whiteout markers before other siblings (the opaque marker first) and siblings otherwise in byte order, so equal inputs give identical output; names are clean and relative. A layer with a name outside the image root is rejected, and squashing an already squashed layer changes nothing.",
  ['inputs'],'all stacks of layers',
  'Tests check the order on hand-written stacks only.',
  ['pkg/squash/vfs.go','pkg/squash/readlayer.go'],[('fsfile.WriteTo','pkg/squash/vfs.go'),('parseLayer','pkg/squash/readlayer.go')],['tar entries'])
p('C19','The loaded image filesystem shows the merged view and stays in it',
  "Opening a path in loaded layers yields the file the merged layers define, following symbolic links inside the image root only; whiteout markers are never listed, directory listings are sorted and, read in any chunk sizes, give each entry once. Reading in any chunk sizes yields exactly the content then end-of-file, and a closed handle, a symlink loop, a missing file or omitted content gives an error, never a panic or wrong data. (The content of hard links is outside this statement.)",
  ['inputs','histories'],'all layer stacks, paths and sequences of Read/ReadDir/Close calls',
  'One image is walked by the tests.',
  ['pkg/squash/vfs_fs.go','pkg/squash/vfs.go'],[('fsfileReader','pkg/squash/vfs_fs.go')],['fs.FS calls'])
p('C20','File mode and ZIP attribute conversions are faithful',
  "Converting a Python st_mode to a Go file mode and back preserves all permission bits, set-uid, set-gid, sticky and every file type both sides can express, and the textual form is the ls -l form for all 65536 modes; type queries agree with the type bits. Splitting a ZIP external-attributes word and reassembling it is the identity both ways, and the Windows attribute constants have their documented values.",
  ['inputs'],'all 2^16 modes, all Go file modes, all 2^32 attribute words',
  'Tests spot-check strings for a few modes.',
  ['pkg/python/stat.go','pkg/python/zip.go'],[('ToGo / ModeFromGo / String','pkg/python/stat.go'),('Raw / ParseZIPExternalAttributes','pkg/python/zip.go')],['conversion results'])
p('C21','Downloads are returned only if every advertised checksum matches',
  "A download is returned only for an HTTP 200 response whose body was read completely and whose digest equals every checksum given in the link fragment for a supported algorithm; any mismatch, other status or transport failure gives an error and no content. Requesting a detached signature fetches the file's .asc companion, and an index that declares there is none, or a 404 where it does not say, is reported as no signature.",
  ['inputs','fault_sequences'],'all URLs, fragments, response bodies, statuses and transport faults',
  'No test exercises the client offline.',
  ['pkg/python/pep503/simple_repo_api.go'],[('Client.get','pkg/python/pep503/simple_repo_api.go'),('FileLink.GetSignature','pkg/python/pep503/simple_repo_api.go')],['Get result'])
p('C22','Index queries use normalized names and honour index metadata',
  "Listing a project requests only the normalized (lower-case, runs of - _ . collapsed to one dash) project page under the base URL and refuses names with any other character; links are resolved against the page's final location. Files whose parsable Requires-Python excludes the target interpreter are omitted and all others kept in page order, and an index declaring a newer major API version is refused.",
  ['inputs'],'all project names, pages and interpreter versions',
  'No test exercises the client offline.',
  ['pkg/python/pep503/simple_repo_api.go','pkg/python/pep629/simple_api_versions.go','pkg/htmlutil/htmlutil.go'],[('ListPackageFiles','pkg/python/pep503/simple_repo_api.go'),('HTMLVersionCheck','pkg/python/pep629/simple_api_versions.go')],['requests made','links returned'])
p('C23','INI files are read as Python configparser reads them',
  "For any text, the parser yields the same sections, keys and values (continuation lines, comments, delimiters, indentation, duplicate detection) as Python's configparser with the same options, no interpolation and no default section, or an error where Python raises one; it never panics.",
  ['inputs'],'all input texts (UTF-8, without the control characters 0x1c to 0x1f) and option settings',
  'Tests sample a few files.',
  ['pkg/python/configparser.go'],[('ConfigParser.Parse','pkg/python/configparser.go')],['Parse result'])
p('C24','Entry-point scripts call the declared object with the right interpreter',
  "For each console or GUI entry point module:attr[.attr...] the installed script is an executable file in the scripts directory whose shebang is the console or graphical interpreter and whose body imports the first attribute from the module and calls the full dotted attribute, as valid Python; extras are ignored. References of any other form are rejected, and nothing is created when the wheel declares no entry points.",
  ['inputs'],'all entry_points.txt contents and platforms',
  'The package has no tests.',
  ['pkg/python/pypa/entry_points/entry_points.go'],[('CreateScripts','pkg/python/pypa/entry_points/entry_points.go')],['installed script files'])
p('C25','Image build flags change exactly the config fields they name',
  "Applying the image configuration flags to any base configuration clears the environment only if asked and then appends the given variables in order, and replaces entrypoint, command and working directory exactly when given, leaving every other field as it was. When no flag is given the configuration is left untouched.",
  ['inputs','configurations'],'all base configurations and flag values',
  'No test covers the command.',
  ['cmd_image_build.go'],[('configFlags.ApplyTo / IsZero','cmd_image_build.go')],['resulting config'])
p('C26','Interpreter lookup in an image follows its PATH and permissions',
  "Looking up a command in an image returns the first PATH directory's entry (relative ones resolved against the working directory) that exists, follows to a non-directory and has an execute bit, a name with a slash is resolved against the working directory without searching, and otherwise an error is returned. The console interpreter never is the windowed variant when the plain one exists, and the graphical one is the windowed variant when it exists.",
  ['inputs','configurations'],'all images (config and layers) and command names',
  'The package has no tests.',
  ['pkg/python/pyinspect/fs_image.go','pkg/python/pyinspect/pyinspect.go'],[('ImageFS.LookPath','pkg/python/pyinspect/fs_image.go'),('Shebangs','pkg/python/pyinspect/pyinspect.go')],['LookPath / Shebangs result'])
p('C27','Platform descriptions are validated and completed consistently',
  "A platform is accepted only if at least one interpreter line is given (the missing one taking the other's value) and all five install directories are absolute; for installation each directory becomes root-relative with nothing else changed. The interpreter version reported by Python maps to the PEP 440 version with the same release numbers and the matching pre-release phase, and an unknown release level is an error.",
  ['inputs'],'all platform descriptions and version infos',
  'No test covers it.',
  ['pkg/python/platform.go','pkg/python/pypa/bdist/misc.go'],[('Platform.Init, VersionInfo.PEP440','pkg/python/platform.go'),('sanitizePlatformForLayer','pkg/python/pypa/bdist/misc.go')],['results'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
