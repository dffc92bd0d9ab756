#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    d["anchors"].update(kw)
    assert len(title) <= 80, title
    P.append(d)
L = "libparted/labels/"
ALL = [L + x for x in "atari.c bsd.c dos.c dvh.c gpt.c loop.c mac.c pc98.c rdb.c sun.c".split()]

p("C01", "A committed partition table reads back as the table that was committed",
  "After a partition table of any writable label type has been committed to a device, opening the device again yields the same label type and exactly the same partitions: number, kind, start, end, and every attribute that the label format can store (name, flags, type id or UUID, partition and disk identity, disk flags).",
  ["inputs", "histories", "configurations"],
  "every writable label type, supported sector size, device size and geometry, and every table reachable through a history of add/remove/resize/flag/name/type operations",
  "The tests commit a few dozen hand-written tables; losses appear only for particular combinations of attribute, label, slot, device geometry and edit order.",
  ALL + ["libparted/disk.c"],
  [("ped_disk_new / ped_disk_commit_to_dev", "libparted/disk.c"), ("read/write pair of each label", L)],
  observe_at=["ped_disk_new after ped_disk_commit_to_dev on an in-memory device"])

p("C02", "The partition list is always a consistent tiling of the device",
  "After every API operation, whether it succeeded or failed, the partitions of a table are ordered, disjoint and inside the device; logical partitions lie inside the extended partition; every active partition has a unique number and the label's limits on their count hold. Partitions, metadata and free space together account for every sector, with no free space shown where a partition is.",
  ["histories", "inputs", "configurations"],
  "every sequence of create/add/resize/remove/delete-all/duplicate/maximize/commit operations on every label type and device size",
  "Tests look at the printed list after one or two operations; inconsistent lists appear after particular multi-step histories, failed operations or nested (logical) layouts.",
  ["libparted/disk.c"] + ALL,
  [("_disk_push_update_mode/_disk_pop_update_mode, _disk_raw_add/_disk_raw_remove, _disk_alloc_freespace, _disk_alloc_metadata, _check_partition", "libparted/disk.c"),
   ("alloc_metadata / partition_enumerate per label", L)],
  observe_at=["ped_disk_next_partition after every operation"])

p("C03", "Edits satisfy the caller's constraint, and a failed edit changes nothing",
  "When adding or resizing a partition succeeds, the resulting geometry satisfies the constraint the caller passed and is a legal placement for the label. When such an operation fails or is refused, the in-memory table (partitions, numbers, geometries, attributes, free space) is exactly what it was before.",
  ["histories", "inputs"],
  "every table, every requested geometry and constraint (alignments, ranges, size bounds), including requests that overlap, exceed the device, or exhaust the label",
  "Tests only use exact or default constraints on simple tables and never compare the whole table after a refusal.",
  ["libparted/disk.c", "libparted/cs/constraint.c"] + ALL,
  [("ped_disk_add_partition / ped_disk_set_partition_geom and the partition_align methods", "libparted/disk.c")],
  observe_at=["ped_disk_add_partition", "ped_disk_set_partition_geom"])

p("C04", "Editing a partition table never writes into partition contents or off the device",
  "Committing a table, creating a new label or removing a label writes only to sectors that hold partition-table metadata of the old or new label; no sector that belongs to the contents of a partition of the committed table is modified (except the signature areas at both ends of the device, about 9 KiB and at least 16 sectors at the start, that creating a new label erases) and no sector outside the device is addressed. Boot code stored beside an existing table in the label sector survives edits of that table.",
  ["histories", "inputs", "configurations"],
  "every label type, table, edit history, sector size and device size, with arbitrary prior contents on the whole device",
  "Tests compare a handful of regions; a stray metadata write is only visible when every sector of the device is compared for many layouts.",
  ALL + ["libparted/disk.c", L + "pt-tools.c"],
  [("write/clobber methods of each label", L), ("metadata reservations (alloc_metadata)", L)],
  observe_at=["device write log"])

p("C05", "Looking at a device never modifies it",
  "Probing the label or file systems of a device, reading and inspecting its table, duplicating it in memory, editing it without committing, or printing it, performs no write to the device, whatever the device contains, unless the user agrees to an offered repair.",
  ["inputs", "histories"],
  "every device content (valid, damaged and arbitrary), label type and sequence of non-committing operations",
  "Tests hardly ever check that an image is unchanged after reading, and never for damaged images where the repair paths live.",
  ["libparted/disk.c", "libparted/filesys.c", "parted/parted.c"] + ALL,
  [("read/probe methods ask before repairing", L)],
  observe_at=["device write log; image bytes before/after `parted -s IMG print`"])

p("C06", "A duplicate of a table is equal to and independent of the original",
  "Duplicating a table yields a table with the same partitions and attributes, whose commit writes exactly the bytes the original's commit would write; later changes to either one, or destroying either one, never affect the other.",
  ["histories", "inputs"],
  "every label type and reachable table, followed by every sequence of edits applied to either copy",
  "One test duplicates one msdos and one gpt table.",
  ["libparted/disk.c"] + ALL,
  [("ped_disk_duplicate and duplicate/partition_duplicate methods", "libparted/disk.c")],
  observe_at=["ped_disk_duplicate"])

p("C07", "Rewriting an unmodified table is idempotent",
  "Reading a table that this library wrote and committing it without edits leaves every byte of the device unchanged (apart from fields defined as a write timestamp), and committing the same in-memory table twice writes the same bytes.",
  ["inputs", "histories", "configurations"],
  "every label type and reachable table, sector size and device size",
  "Tests never compare images before and after a no-op commit; drift only shows for particular layouts.",
  ALL, [("write methods", L)], observe_at=["device bytes"])

p("C08", "Operations on one partition leave every other partition alone",
  "Adding, removing, resizing, naming or flagging one partition never changes the number, geometry, name, type or flags of any other partition, except where the label format itself forces it: logical partitions are renumbered to stay consecutive, and a flag that may belong to only one partition moves.",
  ["histories", "inputs"],
  "every label type, every reachable table and every single operation on it, including operations that fail",
  "The tests check the touched partition; side effects on bystanders need particular slot/flag combinations.",
  ["libparted/disk.c"] + ALL,
  [("partition_enumerate, set_flag of each label", L)],
  observe_at=["all partitions before/after each operation"])

p("C09", "Any label image is handled without memory error, crash or hang",
  "For arbitrary device contents, probing for a label, reading the table, examining, duplicating, editing and rewriting it ends in bounded time with a result or a reported error; it never crashes, aborts on an internal assertion, reads or writes outside its buffers, or executes undefined behaviour.",
  ["inputs", "configurations"],
  "every device content (in particular valid tables with corrupted, extreme or cyclic fields), sector size and device size, and every answer to the questions asked",
  "The tests contain a few corrupt images; the space of malformed tables is unbounded.",
  ALL + [L + "aix.c", L + "pt-tools.c", "libparted/disk.c"],
  [("validation in probe/read methods", L)],
  observe_at=["ped_disk_probe, ped_disk_new under ASan/UBSan"])

p("C10", "A GPT commit interrupted anywhere leaves a readable table",
  "If a commit of a GPT table stops after any prefix of its writes (with the last write possibly torn), the device still reads as GPT (repairing from the other copy if needed) and shows exactly the partitions of the old table or exactly those of the new one.",
  ["crash_points", "inputs"],
  "every pair of old and new GPT tables on the same device and every crash point of the commit, including torn sectors",
  "No test interrupts a commit.",
  [L + "gpt.c"], [("gpt_write order; gpt_read fallback to the other header", L + "gpt.c")],
  observe_at=["device write log replayed to every prefix"])

p("C11", "Damage to one GPT copy never loses the table; damage to both is refused",
  "When either the primary or the backup GPT header or entry array is damaged in any way, the table is, on a device of unchanged size, still read from the intact copy, with the same partitions, after the user agrees to the offered repair, and committing restores both copies. When neither copy is valid, no partition table is invented from the corrupt data.",
  ["inputs", "fault_sequences"],
  "every GPT table, every corruption of bytes of either copy or of both, every moved backup/grown or shrunk device, every answer to the repair questions",
  "Tests corrupt two or three fixed bytes.",
  [L + "gpt.c", L + "efi_crc32.c"], [("_header_is_valid, gpt_read_headers, gpt_read", L + "gpt.c")],
  observe_at=["ped_disk_new on damaged images"])

p("C12", "GPT tables on disk conform to the UEFI specification",
  "Every GPT committed to a device satisfies the UEFI rules as judged by an independent parser: protective MBR, both headers with correct signature, sizes, locations and CRCs, backup mirroring the primary, entry arrays identical and outside the usable range, unique partition GUIDs, and entries equal to the in-memory partitions (position, type, name, attributes).",
  ["inputs", "histories", "configurations"],
  "every reachable GPT table, sector size and device size (including larger than 2 TiB) and flag/type/name combination",
  "Tests only read tables back with the same code that wrote them, plus a few byte comparisons.",
  [L + "gpt.c", L + "efi_crc32.c"], [("gpt_write, _generate_header, _partition_generate_part_entry, _write_pmbr", L + "gpt.c")],
  observe_at=["image bytes"])

p("C13", "MBR/EBR tables on disk conform to the DOS partition format",
  "Every msdos table committed to a device is read by an independent MBR/EBR parser as exactly the in-memory table: primary slots, type bytes and boot indicators, the EBR chain giving logical partitions in order at the right places, valid signatures, CHS fields consistent with the LBA fields, and preserved boot code and disk signature.",
  ["inputs", "histories", "configurations"],
  "every reachable msdos table with primary, extended and logical partitions, sector sizes and device sizes",
  "Tests read tables back with the same code that wrote them; EBR chains are tried with a few logicals.",
  [L + "dos.c"], [("msdos_write, write_ext_table, fill_raw_part, sector_to_chs", L + "dos.c")],
  observe_at=["image bytes"])

p("C14", "bsd, sun, mac, dvh, amiga, pc98, atari labels conform to their formats",
  "Every bsd, sun, mac, dvh, amiga, pc98 or atari label committed to a device is read by an independent parser of that format as exactly the in-memory table, with correct magic numbers, checksums, whole-disk entries and links between blocks.",
  ["inputs", "histories", "configurations"],
  "every reachable table of those label types, sector sizes and device sizes they support",
  "Tests read the tables back with the code that wrote them, so symmetrical errors cancel out.",
  [L + x for x in "bsd.c sun.c mac.c dvh.c rdb.c pc98.c atari.c".split()],
  [("write methods and checksum functions", L)], observe_at=["image bytes"])

p("C15", "Creating a label replaces whatever label was there",
  "After a new label of any type is created and committed over a device holding any other label (or damaged remains of one), the device is recognised as exactly the new label type with the new table, and no structure of the old label makes it be recognised as the old one.",
  ["inputs", "histories", "configurations"],
  "every ordered pair of label types with arbitrary old tables, sector sizes and device sizes",
  "Tests try a few transitions; stale structures lie in different places for every type.",
  ["libparted/disk.c"] + ALL, [("ped_disk_clobber, clobber methods, probe order", "libparted/disk.c")],
  observe_at=["ped_disk_probe after mklabel"])

p("C16", "Rounding, alignment and geometry arithmetic obeys its algebra",
  "For all sector numbers: rounding up/down/nearest gives the closest multiple in the stated direction, the intersection of two alignments contains exactly the sectors aligned to both, aligning up/down/nearest within a range gives the closest aligned sector in the range or fails only if there is none, and geometry intersection, containment, overlap and mapping agree with sets of sectors.",
  ["inputs"],
  "every pair of alignments, ranges and sectors of 64-bit arithmetic that does not itself overflow",
  "No unit test covers this arithmetic beyond what label tests happen to use.",
  ["libparted/cs/natmath.c", "libparted/cs/geom.c"],
  [("ped_round_*, ped_greatest_common_divisor, ped_alignment_*", "libparted/cs/natmath.c"), ("ped_geometry_*", "libparted/cs/geom.c")],
  observe_at=["public functions"])

p("C17", "The constraint solver is sound, complete, and nearest",
  "Every geometry returned by the solver satisfies the constraint, a solution is found whenever one exists for constraints built from alignments, ranges and size bounds that leave room for one end-alignment step, the intersection of two constraints accepts exactly the geometries accepted by both, and an already valid geometry is returned unchanged.",
  ["inputs"],
  "every constraint (start/end alignment, start/end range, minimum/maximum size) and target geometry",
  "There is no unit test of the solver.",
  ["libparted/cs/constraint.c", "libparted/cs/natmath.c"],
  [("ped_constraint_intersect, ped_constraint_solve_nearest/_max, ped_constraint_is_solution", "libparted/cs/constraint.c")],
  observe_at=["public functions"])

p("C18", "Sizes and positions are formatted and parsed faithfully in every unit",
  "A position parsed from a string denotes exactly the sector the text names (with the documented tolerance range and snapping for each unit, and negative values counted from the end), malformed numbers and locations outside the device are rejected with a message, a sector formatted in sectors, bytes or CHS reads back as itself, and one formatted in any other unit reads back within the printed precision, to a range that contains it; formatted values are correct to the printed precision (numbers pass through a double, so exactness ends at 53 bits).",
  ["inputs", "configurations"],
  "every sector, unit, device size, sector size and geometry, and every input string",
  "The tests parse about ten fixed strings.",
  ["libparted/unit.c"], [("ped_unit_parse_custom, ped_unit_format_custom_byte", "libparted/unit.c")],
  observe_at=["ped_unit_parse*", "ped_unit_format*"])

p("C19", "Flags behave as a consistent, persistent set",
  "For every partition and disk flag: one reported as unavailable cannot be set, setting or clearing an available one takes effect and can be read back, clearing undoes setting, flags that exclude each other are never both set, and names convert to flags and back one-to-one.",
  ["histories", "inputs", "configurations"],
  "every label type, flag, file-system type and sequence of flag changes on tables with several partitions",
  "Tests set one flag at a time on one partition.",
  ALL + ["libparted/disk.c"], [("partition_set_flag/get_flag/is_flag_available", L), ("ped_partition_flag_get_by_name", "libparted/disk.c")],
  observe_at=["ped_partition_set_flag", "ped_partition_get_flag"])

p("C20", "File systems are recognised, correctly named and located",
  "A file system created in a partition by the standard tools, of any supported type and parameters, is recognised as that type and no other, wherever the partition lies and whatever surrounds it, and its reported extent lies within the partition; a region with no file system is recognised as none. Where the remains of several file systems are found, the one whose extent is clearly nearest to the region is named, and none if no one is.",
  ["inputs", "configurations"],
  "every supported file system and creation parameter, position, partition size and surrounding contents",
  "Tests probe one default image per type.",
  ["libparted/filesys.c", "libparted/fs"], [("ped_file_system_probe, ped_file_system_probe_specific, *_probe", "libparted/fs")],
  observe_at=["ped_file_system_probe"])

p("C21", "Device reads and writes transfer exactly the requested sectors or fail",
  "Reading or writing any range of a device transfers exactly those bytes at that position even when the operating system completes requests partially or interrupts them; when it cannot, the error is reported and success is not claimed. No bytes outside the range are touched, for any sector size and buffer alignment.",
  ["inputs", "fault_sequences", "configurations"],
  "every range, sector size, buffer and every sequence of short, interrupted and failing system calls, and every answer to the error questions",
  "Tests run on a kernel that never returns short counts or errors for files.",
  ["libparted/arch/linux.c", "libparted/device.c", L + "pt-tools.c"],
  [("linux_read, linux_write, linux_check, linux_sync", "libparted/arch/linux.c")],
  observe_at=["ped_device_read/write/check/sync with intercepted system calls"])

p("C22", "A device error during an operation is reported, never mistaken for success",
  "If any single read, write or flush fails while a table is read or committed, the operation reports failure (and the failure is announced to the exception handler) rather than succeeding with missing or stale data, and afterwards memory is intact and the same operation succeeds once the device works again.",
  ["fault_sequences", "histories"],
  "every label type and table, and a failure of the k-th device access for every k",
  "No test injects device errors into a commit.",
  ALL + ["libparted/disk.c"], [("return-value checks along read/write methods", L)],
  observe_at=["ped_disk_commit_to_dev / ped_disk_new with a failing device"])

p("C23", "parted's human, machine and JSON reports agree with the disk",
  "For any disk, the listings parted prints in normal, machine-readable and JSON form describe the same table in any unit: the same label, partitions, numbers, positions, names, flags and types as the library sees; the JSON is well-formed, and names containing special characters are escaped so the output still parses.",
  ["inputs", "configurations"],
  "every table, name, flag set, unit, and with or without free space",
  "Tests compare fixed listings for a few tables.",
  ["parted/parted.c", "parted/jsonwrt.c", "parted/table.c", "parted/strlist.c"],
  [("do_print", "parted/parted.c"), ("ul_jsonwrt_*", "parted/jsonwrt.c")],
  observe_at=["stdout of `parted -s [-m|-j] IMG unit U print [free]`"])

p("C24", "Scripted parted always terminates, reports errors, and obeys its exit status",
  "In script mode, for any command line, parted terminates without asking anything, crashing or hanging; exit status 0 means every command was carried out, a failing command yields a non-zero status and a message and stops the remaining commands, and a command that failed leaves the disk as the preceding commands left it.",
  ["inputs", "histories"],
  "every sequence of commands and arguments, valid or not, on every kind of image",
  "Tests use a few dozen fixed command lines.",
  ["parted/parted.c", "parted/ui.c", "parted/command.c", "parted/strlist.c"],
  [("non_interactive_mode, command_line_get_*", "parted/ui.c")],
  observe_at=["exit status, output and image of the parted process"])

p("C25", "parted places and resizes partitions where the user asked",
  "When mkpart or resizepart succeeds, a partition asked for with exact units (sectors, bytes, binary units with exact multiples) starts and ends exactly there, and one asked for with approximate units lies within the documented tolerance of the request, start and end in order, without touching others; `align-check` agrees with the arithmetic of the device's alignment, and a resize moves only the end.",
  ["inputs", "histories", "configurations"],
  "every start/end in every unit (including negative and percentage), alignment mode, label type, sector size and device size",
  "Tests try few positions and units.",
  ["parted/parted.c", "libparted/unit.c", "libparted/disk.c"],
  [("do_mkpart, do_resizepart, snap_to_boundaries, constraint_from_start_end*", "parted/parted.c")],
  observe_at=["table after `parted -s IMG mkpart ...`"])

p("C26", "The kernel's view is brought to the committed table, and only as far as safe",
  "After committing to a block device, the set of partition devices known to the kernel (number, start, length) equals the committed table; a partition in use is never removed or moved, and if the kernel's view cannot be updated the user is told instead of success being claimed.",
  ["histories", "fault_sequences", "inputs"],
  "every pair of kernel state and new table, every subset of partitions in use, every failing system call, and every sector size",
  "Tests need real block devices or scsi_debug, which are not run, and cover two cases.",
  ["libparted/arch/linux.c"], [("_disk_sync_part_table, _blkpg_*", "libparted/arch/linux.c")],
  observe_at=["intercepted ioctl calls against a kernel model"])

p("C27", "Resizing a FAT or HFS file system preserves every file",
  "Resizing a consistent FAT16, FAT32, HFS or HFS+ file system either is refused leaving it as it was, or leaves a file system of the new size that an independent checker finds consistent and that holds exactly the same directory tree and file contents; nothing outside the old and new extents is written.",
  ["inputs", "configurations"],
  "every population of files, cluster size, old and new extent the library accepts",
  "One test resizes one empty FAT/HFS file system.",
  ["libparted/fs/r/fat", "libparted/fs/r/hfs", "libparted/fs/r/filesys.c"],
  [("ped_file_system_resize, fat_resize, hfs_resize", "libparted/fs/r")],
  observe_at=["image read with mtools/fsck.fat/hfsutils/fsck.hfs"])

p("C28", "Values that a label cannot represent are refused, never truncated",
  "A partition start, length, count or name that the label format has no room for is refused, announced as shortened, or visibly shortened when it is requested or at the latest when the table is committed; a commit that succeeds never stores a different number than the one shown.",
  ["inputs", "configurations"],
  "every label type, sector size, geometry and device size up to 2^63 bytes, and every requested geometry around the format's limits",
  "Tests try one limit (2 TiB) on msdos and dvh.",
  ALL + ["libparted/disk.c", L + "pt-limit.gperf", L + "pt-common.h"],
  [("partition_check, max start/length limits", "libparted/disk.c")],
  observe_at=["ped_disk_add_partition, ped_disk_commit_to_dev on huge sparse devices"])

p("C29", "The maximal geometry offered for a partition is feasible and maximal",
  "The largest geometry reported for a partition under a constraint contains no sector of another partition, satisfies the constraint, can actually be applied, and is at least as large as the partition's current geometry and any free neighbouring space the constraint and label allow (to within one alignment step where the constraint limits the size); growing a partition to it keeps all else unchanged.",
  ["histories", "inputs"],
  "every reachable table, partition and constraint",
  "No test maximizes partitions except through one duplicate test.",
  ["libparted/disk.c"], [("ped_disk_get_max_partition_geometry, ped_disk_maximize_partition, ped_disk_minimize_extended_partition", "libparted/disk.c")],
  observe_at=["ped_disk_get_max_partition_geometry"])

p("C30", "Any file-system content is probed without memory error, crash or hang",
  "For arbitrary contents of a partition, probing for file systems (all types, on any sector size and partition size) and opening a FAT or HFS file system for resizing end in bounded time with a result or an error; they never crash, abort, access memory or sectors out of bounds, or execute undefined behaviour.",
  ["inputs", "configurations"],
  "every content (in particular real superblocks with corrupted or extreme fields), sector size and geometry",
  "Tests probe a few clean images.",
  ["libparted/fs", "libparted/filesys.c"], [("*_probe; fat_open, hfs_open, hfsplus_open", "libparted/fs")],
  observe_at=["ped_file_system_probe, ped_file_system_open under ASan/UBSan"])

p("C31", "rescue finds a lost partition exactly where it was",
  "When a partition holding a recognisable file system has been deleted, `rescue` over a range around its old boundaries offers it and re-creates it with the exact old start and end, never overlapping existing partitions, and declining leaves the disk unchanged.",
  ["inputs", "histories"],
  "every lost partition position and size, file system, search range and surrounding table",
  "One test rescues one ext2 partition.",
  ["parted/parted.c"], [("do_rescue, _rescue_add_partition", "parted/parted.c")],
  observe_at=["table after `parted IMG rescue S E`"])

p("C32", "Exceptions reach the handler with valid answers, nest, and clean up",
  "Every error is announced to the installed handler with a message and only offered answers are acted on; while fetching is enabled the exception is held and not shown, nesting of fetch/leave is balanced, rethrowing delivers the same exception, without a handler the default answer is the single sensible one or 'unhandled', and no library operation on a table fails without a message or leaves an exception pending or fetching enabled.",
  ["histories", "inputs"],
  "every sequence of throw/catch/rethrow/fetch/leave/handler changes and every answer, and every history of operations, commits and loads, with and without failing I/O",
  "No test drives the exception interface directly.",
  ["libparted/exception.c"], [("ped_exception_throw/rethrow/catch, fetch_all/leave_all", "libparted/exception.c")],
  observe_at=["public functions"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
