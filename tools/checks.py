"""Registry of the checks: property -> how it is decided.  MANIFEST.json is generated from it."""
PBT = 'property-based testing: '
HARNESS = 'in-memory PedDevice back end replaces libparted/arch/linux.c (except C21, C26); the oracle code in /verif/src is trusted'
C = {}


def c(id, binary, technique, note, level='exploration', assumptions=(), variant='asan'):
    C[id] = dict(binary=binary, technique=PBT + technique, note=note, level=level,
                 assumptions=[HARNESS] + list(assumptions) if binary in ('core', 'formats', 'hostile', 'pure', 'cli') else list(assumptions), variant=variant)


c('C01', 'core', 'random edit histories on all writable labels, round-trip oracle (commit, reopen, compare snapshots), shrinking',
  'Random search; attributes a format cannot store (listed in core.cc storable()) are exempt.')
c('C02', 'core', 'random edit histories, tiling invariant checked after every operation, shrinking',
  'Random search over histories of about 12 operations (24 in thorough).')
c('C03', 'core', 'random edits with random constraints, postcondition and before/after snapshot oracle, shrinking',
  'Random search; the constraint is re-evaluated by the harness, not by libparted.')
c('C06', 'core', 'random histories, duplicate, then differential comparison of snapshots and committed bytes, shrinking',
  'Random search.')
c('C07', 'core', 'random histories, metamorphic relation commit;commit = commit and read;commit = identity on all device bytes',
  'Random search; uuid and time sources are deterministic in the harness.')
c('C08', 'core', 'random histories, frame condition on every partition other than the operated one, shrinking',
  'Random search.')
c('C19', 'core', 'random flag assignments against the availability report, read-back, exclusivity groups, persistence, shrinking',
  'Random search.')
c('C29', 'core', 'random tables and constraints, soundness/maximality/applicability of the offered geometry, shrinking',
  'Random search; maximality is tested against sampled larger geometries.')
c('C04', 'formats', 'random histories over recorded devices, every write compared with the set of sectors a format may use and with the partitions of the table, shrinking',
  'Random search over generated tables; the allowed metadata areas are computed per format by the harness.')
c('C05', 'formats', 'random labels, damage and file-system contents; random read-only operations; oracle: no write reaches the device, shrinking',
  'Random search; the handler never agrees to a repair.')
c('C09', 'hostile', 'structure-aware mutation of committed label images (all types, with checksums repaired) under ASan+UBSan with an operation budget, then random operations, shrinking',
  'Random search; a case ends as a violation on any sanitizer report, abort, time-out or access outside the device.')
c('C10', 'formats', 'fault injection: every prefix of the writes of a commit (optionally tearing the last write) is replayed on a copy and reopened; oracle: old or new table',
  'Crash model: writes persist in the order issued; the last one may be torn at 512-byte granularity.')
c('C11', 'formats', 'random damage to one or both GPT copies; oracle: same table after repair, or refusal, and a full repair on commit, shrinking',
  'Random search.')
c('C12', 'formats', 'random histories; every committed GPT is judged by an independent UEFI parser, shrinking', 'Random search.')
c('C13', 'formats', 'random histories; every committed MBR/EBR chain is read by an independent parser, shrinking', 'Random search.')
c('C14', 'formats', 'random histories; every committed bsd, sun, mac, dvh, amiga, pc98, atari label is read by independent parsers, shrinking', 'Random search.')
c('C15', 'formats', 'random table, damage and relabelling chains over all label types; oracle: probe, old prober, complaint-free re-read and snapshot comparison, shrinking',
  'Random search over pairs of label types; pc98 on sectors over 512 bytes is a recorded finding.')
c('C22', 'formats', 'fault injection: a generated read, write or sync of a commit or load fails (once or for good); oracle: error reported, memory unchanged, retry succeeds, shrinking',
  'Random choice of the failing operation; failures are clean EIO results, not partial transfers.')
c('C28', 'formats', 'boundary-directed generation around 16/24/31/32/33-bit, cylinder and name-length limits; independent parsers and re-read as oracle, shrinking',
  'Random search around the limits of each format.')
c('C30', 'hostile', 'structure-aware mutation of real file-system images and synthetic super blocks under ASan+UBSan with an operation budget, shrinking',
  'Random search; file systems are opened for resizing but not resized with hostile contents; journal replay of HFS+ is reached only by chance.')
c('C16', 'pure', 'random and boundary-directed operands against brute force and 128-bit reference arithmetic, shrinking',
  'Random search; small operands are compared exhaustively over a range of sectors, large ones by a Chinese-remainder reference.')
c('C17', 'pure', 'random constraints on small devices solved by exhaustive enumeration, on large ones by sampling, shrinking',
  'Random search; nearest/maximal solutions are brute-forced on devices of up to some dozens of sectors.')
c('C18', 'pure', 'random locations formatted and parsed in every unit against exact 128-bit decimal arithmetic, with malformed texts, shrinking',
  'Random search; values beyond 2^52 bytes are compared with the tolerance of a double.')
c('C32', 'pure', 'random sequences of throw, fetch, leave, catch, rethrow and handler changes against a model; random library histories with injected errors, shrinking',
  'Random search.')
c('C23', 'cli', "random tables shown by the real parted main program in every unit and in human, machine and JSON form; differential against the library's own table and between the forms, strict parsers, shrinking",
  'Random search; the program runs in a forked child on the in-memory device.')
c('C25', 'cli', 'random mkpart, resizepart and align-check commands typed in every unit; oracle: the location rules re-implemented over exact arithmetic and the committed bytes re-read, shrinking',
  'Random search; resizepart is not run on loop labels, which store no geometry.')
c('C24', 'cli', "random command sequences for parted -s: the sequence given at once against one invocation per command, each command against the same library calls, injected read, write and sync failures, malformed command lines on sound and damaged labels, shrinking",
  'Random search; toggles, rescue and select are only part of the malformed command lines.')
c('C31', 'cli', "real file-system images in partitions that are then deleted; rescue is run with every offer declined, with the right one accepted, and cancelled; oracle: the old boundaries, the rest of the table, and the device bytes, shrinking",
  'Random search over gpt, msdos, mac and bsd labels and the file systems that record their own extent.')
SIM = 'every system call of libparted/arch/linux.c is answered by the simulated kernel in src/sim.cc (link-time wrapping); device-mapper devices are not modelled'
c('C21', 'linuxio', 'fault injection: random reads, writes, checks and syncs through the real Linux back end on a simulated kernel that returns short counts, EINTR, EIO and unreadable sectors; oracle: a byte-exact model of the device, shrinking',
  'Random search; failing memory allocation is not modelled.', assumptions=[SIM])
c('C26', 'kernel', 'model-based: random old and new tables committed and partprobe run through the real Linux back end on a simulated BLKPG kernel with partitions in use and failing calls; oracle: the final kernel table, what was in use, and what was reported, shrinking',
  'Random search; dvh labels (numbers beyond their own maximum) are excluded; the ways of the kernel are those of block/ioctl.c.', assumptions=[SIM])
c('C27', 'fsresize', 'generated FAT16 and FAT32 file systems (all cluster sizes, fragmented, nested, long names, bad clusters) resized, moved and converted to random extents; oracle: an independent reader that checks every structure and compares names, attributes and contents, fsck.fat, and the write log, shrinking',
  'Random search; user answers are drawn (never "ignore").', assumptions=['in-memory PedDevice back end replaces libparted/arch/linux.c', 'the reader of src/fatimg.cc knows the FAT format (cross-checked with fsck.fat)'])
c('C20', 'fsprobe', 'file systems made by the installed mkfs tools with random parameters (or written from their description) and placed at random in partitions among other data; oracle: the tool that made it, the size it was given and the other probers, shrinking',
  'Random search; UDF media of fewer than 600 blocks and fat12 (which parted does not support: recognised as none) are treated as documented; no tool for ntfs, ufs, affs, apfs, asfs and old swap is installed, these are written by the harness.',
  assumptions=['in-memory PedDevice back end replaces libparted/arch/linux.c', 'the mkfs tools of the sandbox make what they are asked for'])
