From 58bc994d9dee7a7f8783a1cf4a174213ac6dcc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 01/96] fix: enforce constraints and alignment on fresh disk
 labels

_partition_align skipped alignment whenever needs_clobber was set, which is
also the case for a label made with ped_disk_new_fresh, so the caller's
constraint was ignored until the first commit.  Skip it only while reading.
---
 libparted/disk.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..09cdef5 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -198,6 +198,8 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
+	/* Being read: see _partition_align. */
+	disk->needs_clobber = -1;
 	if (!type->ops->read (disk))
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
@@ -951,7 +953,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->needs_clobber < 0)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From 785c8454ea565404d601d918197cb196136a4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 02/96] fix: restore the geometry before rebuilding free space
 when ped_disk_set_partition_geom fails

---
 libparted/disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 09cdef5..744c8aa 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2340,6 +2340,8 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	/* before free space is recomputed */
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From 2854bff23b3168c5d6a663c467d8b1d24397a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 03/96] fix: mac: keep boot, lvm and raid flags, type and
 32-byte names consistent with what is stored

Also do not index before an empty partition name.
---
 libparted/labels/mac.c | 59 +++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 6711d87..8409dda 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -917,10 +917,8 @@ _generate_raw_part (PedDisk* disk, PedPartition* part,
 		= PED_CPU_TO_BE32 (mac_disk_data->last_part_entry_num);
 	part_map_entry->start_block = PED_CPU_TO_BE32 (part->geom.start);
 	part_map_entry->block_count = PED_CPU_TO_BE32 (part->geom.length);
-	strncpy (part_map_entry->name, mac_part_data->volume_name, 31);
-	part_map_entry->name[31] = '\0';
-	strncpy (part_map_entry->type, mac_part_data->system_name, 31);
-	part_map_entry->type[31] = '\0';
+	strncpy (part_map_entry->name, mac_part_data->volume_name, 32);
+	strncpy (part_map_entry->type, mac_part_data->system_name, 32);
 
 	if (mac_part_data->is_driver) {
 		if (mac_part_data->has_driver)
@@ -1194,6 +1192,14 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 		mac_data->status = 0x33;
 		return 1;
 	}
+	if (mac_data->is_lvm) {
+		strcpy (mac_data->system_name, "Linux_LVM");
+		return 1;
+	}
+	if (mac_data->is_raid) {
+		strcpy (mac_data->system_name, "Linux_RAID");
+		return 1;
+	}
 
 	if (fs_type && (!strcmp (fs_type->name, "hfs")
 			|| !strcmp (fs_type->name, "hfs+"))) {
@@ -1221,17 +1227,14 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 	mac_data = part->disk_specific;
 
 	switch (flag) {
+	/* boot, lvm and raid are all stored in the partition's type name */
 	case PED_PARTITION_BOOT:
+		if (!state && !mac_data->is_boot)
+			return 1;
 		mac_data->is_boot = state;
-
-		if (part->fs_type)
-			return mac_partition_set_system (part, part->fs_type);
-
-		if (state) {
-			strcpy (mac_data->system_name, "Apple_Bootstrap");
-			mac_data->status = 0x33;
-		}
-		return 1;
+		if (state)
+			mac_data->is_lvm = mac_data->is_raid = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	case PED_PARTITION_ROOT:
 		if (state) {
@@ -1256,24 +1259,20 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 		return 1;
 
 	case PED_PARTITION_LVM:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_LVM");
-			mac_data->is_lvm = state;
-		} else {
-			if (mac_data->is_lvm)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		if (!state && !mac_data->is_lvm)
+			return 1;
+		mac_data->is_lvm = state;
+		if (state)
+			mac_data->is_boot = mac_data->is_raid = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	case PED_PARTITION_RAID:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_RAID");
-			mac_data->is_raid = state;
-		} else {
-			if (mac_data->is_raid)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		if (!state && !mac_data->is_raid)
+			return 1;
+		mac_data->is_raid = state;
+		if (state)
+			mac_data->is_boot = mac_data->is_lvm = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	default:
 		return 0;
@@ -1353,7 +1352,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	strncpy (mac_data->volume_name, name, 32);
 	mac_data->volume_name [32] = 0;
 	for (i = strlen (mac_data->volume_name) - 1;
-			mac_data->volume_name[i] == ' '; i--)
+			i >= 0 && mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
 }
 
-- 
2.43.0


From 4f8268463b5244bc04f4037ce48e6ab34881bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 04/96] fix: pc98: do not index before an empty partition name

---
 libparted/labels/pc98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index cfa3ba4..5d2d336 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -633,7 +633,8 @@ pc98_partition_set_name (PedPartition* part, const char* name)
 
 	strncpy (pc98_data->name, name, 16);
 	pc98_data->name [16] = 0;
-	for (i = strlen (pc98_data->name) - 1; pc98_data->name[i] == ' '; i--)
+	for (i = strlen (pc98_data->name) - 1;
+			i >= 0 && pc98_data->name[i] == ' '; i--)
 		pc98_data->name [i] = 0;
 }
 
-- 
2.43.0


From e6e47a4f1e10b1876789646b31579c8a73325c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 05/96] fix: nilfs2: do not shift a negative length on tiny
 partitions

---
 libparted/fs/nilfs2/nilfs2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/fs/nilfs2/nilfs2.c b/libparted/fs/nilfs2/nilfs2.c
index 74186f1..67dec9e 100644
--- a/libparted/fs/nilfs2/nilfs2.c
+++ b/libparted/fs/nilfs2/nilfs2.c
@@ -106,6 +106,9 @@ nilfs2_probe (PedGeometry* geom)
 	struct nilfs2_super_block *sb2 = NULL;
 	PedSector length = geom->length * (geom->dev->sector_size / 512);
 
+	if (length < 8)
+		return NULL;
+
 	PedSector sb2off = NILFS_SB2_OFFSET(length) / (geom->dev->sector_size / 512);
 	if (sb2off <= 2)
 		return NULL;
-- 
2.43.0


From 7c43dc2b2c6041b2d51068c4c1ba43ab0c29d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 06/96] fix: natmath: alignment arithmetic on negative and
 large values

---
 libparted/cs/natmath.c | 55 +++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index ea53afc..06aa2b2 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -31,6 +31,7 @@
  */
 
 #include <config.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <parted/parted.h>
 #include <parted/debug.h>
@@ -59,10 +60,9 @@ const PedAlignment* ped_alignment_none = NULL;
 static PedSector
 abs_mod (PedSector a, PedSector b)
 {
-	if (a < 0)
-		return a % b + b;
-	else
-		return a % b;
+	PedSector	mod = a % b;
+
+	return mod < 0 ? mod + b : mod;
 }
 
 /* Rounds a number down to the closest number that is a multiple of
@@ -90,7 +90,7 @@ ped_round_up_to (PedSector sector, PedSector grain_size)
 PedSector
 ped_round_to_nearest (PedSector sector, PedSector grain_size)
 {
-	if (sector % grain_size > grain_size/2)
+	if (abs_mod (sector, grain_size) > grain_size/2)
 		return ped_round_up_to (sector, grain_size);
 	else
 		return ped_round_down_to (sector, grain_size);
@@ -197,7 +197,7 @@ ped_alignment_duplicate (const PedAlignment* align)
  * 	gcd = x*a + y*b
  */
 static EuclidTriple _GL_ATTRIBUTE_PURE
-extended_euclid (int a, int b)
+extended_euclid (PedSector a, PedSector b)
 {
 	EuclidTriple	result;
 	EuclidTriple	tmp;
@@ -216,6 +216,20 @@ extended_euclid (int a, int b)
 	return result;
 }
 
+/* Returns a * b mod m, for 0 <= a < m and 0 <= b < m, without overflowing. */
+static PedSector _GL_ATTRIBUTE_CONST
+mul_mod (PedSector a, PedSector b, PedSector m)
+{
+	PedSector	result = 0;
+
+	for (; b > 0; b >>= 1) {
+		if (b & 1)
+			result -= result >= m - a ? m - a : -a;
+		a -= a >= m - a ? m - a : -a;
+	}
+	return result;
+}
+
 /**
  * This function computes a PedAlignment object that describes the
  * intersection of two alignments.  That is, a sector satisfies the
@@ -297,6 +311,8 @@ ped_alignment_intersect (const PedAlignment* a, const PedAlignment* b)
 	PedSector	new_grain_size;
 	PedSector	new_offset;
 	PedSector	delta_on_gcd;
+	PedSector	b_on_gcd;
+	PedSector	x;
 	EuclidTriple	gcd_factors;
 
 
@@ -325,14 +341,31 @@ ped_alignment_intersect (const PedAlignment* a, const PedAlignment* b)
 	/* general case */
 	gcd_factors = extended_euclid (a->grain_size, b->grain_size);
 
+	/* inconsistency => no solution */
+	if ((b->offset - a->offset) % gcd_factors.gcd != 0)
+		return NULL;
+
+	if (b->grain_size == 0)
+		return ped_alignment_duplicate (b);
+
+	/* X is only determined modulo the number of grains of a in a grain
+	 * of the result, so take the smallest that isn't negative.
+	 */
+	b_on_gcd = b->grain_size / gcd_factors.gcd;
 	delta_on_gcd = (b->offset - a->offset) / gcd_factors.gcd;
-	new_offset = a->offset + gcd_factors.x * delta_on_gcd * a->grain_size;
-	new_grain_size = a->grain_size * b->grain_size / gcd_factors.gcd;
+	x = mul_mod (abs_mod (gcd_factors.x, b_on_gcd),
+		     abs_mod (delta_on_gcd, b_on_gcd), b_on_gcd);
 
-	/* inconsistency => no solution */
-	if (new_offset
-	    != b->offset - gcd_factors.y * delta_on_gcd * b->grain_size)
+	/* no solution that is a PedSector */
+	if (x > (LLONG_MAX - a->offset) / a->grain_size)
 		return NULL;
+	new_offset = a->offset + x * a->grain_size;
+
+	/* only one solution that is a PedSector */
+	if (b_on_gcd > LLONG_MAX / a->grain_size)
+		new_grain_size = 0;
+	else
+		new_grain_size = a->grain_size * b_on_gcd;
 
 	return ped_alignment_new (new_offset, new_grain_size);
 }
-- 
2.43.0


From 34a17dda9496fb48ccf614d55bc7a47095f41024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 07/96] fix: constraint: a region that ends at sector min_size
 - 1 is a solution

---
 libparted/cs/constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index 146c318..c9693f6 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -310,7 +310,7 @@ _constraint_get_canonical_start_range (const PedConstraint* constraint)
 			constraint->end_range->end);
 	if (first_end_soln == -1 || last_end_soln == -1
 	    || first_end_soln > last_end_soln
-	    || last_end_soln < constraint->min_size)
+	    || last_end_soln < constraint->min_size - 1)
 		return NULL;
 
 	min_start = first_end_soln - constraint->max_size + 1;
-- 
2.43.0


From 71c1746311ebe110c84fa129ec90393c70d1ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 08/96] fix: disk: restore the exact geometry after computing
 the maximal one, renumber after a failed add

---
 libparted/disk.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 744c8aa..05ec46d 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2173,6 +2173,9 @@ error:
 	ped_constraint_destroy (overlap_constraint);
 	ped_constraint_destroy (constraints);
 	_disk_pop_update_mode (disk);
+	/* numbering PART may have moved other partitions' numbers: undo that */
+	if (ped_partition_is_active (part))
+		ped_disk_enumerate_partitions (disk);
 	return 0;
 }
 
@@ -2360,13 +2363,11 @@ int
 ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 			     const PedConstraint* constraint)
 {
-	PedGeometry	old_geom;
 	PedSector	global_min_start;
 	PedSector	global_max_end;
 	PedSector	new_start;
 	PedSector	new_end;
 	PedPartition*	ext_part = ped_disk_extended_partition (disk);
-	PedConstraint*	constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (part != NULL);
@@ -2380,8 +2381,6 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 		global_max_end = disk->dev->length - 1;
 	}
 
-	old_geom = part->geom;
-
 	if (!_disk_push_update_mode (disk))
 		return 0;
 
@@ -2404,10 +2403,7 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error:
-	constraint_any = ped_constraint_any (disk->dev);
-	ped_disk_set_partition_geom (disk, part, constraint_any,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_any);
+	/* ped_disk_set_partition_geom left the geometry as it was */
 	_disk_pop_update_mode (disk);
 	return 0;
 }
@@ -2424,7 +2420,6 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 {
 	PedGeometry	old_geom;
 	PedGeometry*	max_geom;
-	PedConstraint*	constraint_exact;
 
 	PED_ASSERT(disk != NULL);
 	PED_ASSERT(part != NULL);
@@ -2435,17 +2430,23 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 		return NULL;
 	max_geom = ped_geometry_duplicate (&part->geom);
 
-	constraint_exact = ped_constraint_exact (&old_geom);
-	ped_disk_set_partition_geom (disk, part, constraint_exact,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_exact);
-
-	/* this assertion should never fail, because the old
-	 * geometry was valid
+	/* Put the old geometry back as it was.  It was valid, but it need not
+	 * be one that the label would align a partition to.
 	 */
-	PED_ASSERT (ped_geometry_test_equal (&part->geom, &old_geom));
+	if (!_disk_push_update_mode (disk))
+		goto error;
+	_disk_raw_remove (disk, part);
+	part->geom = old_geom;
+	_disk_raw_add (disk, part);
+	if (!_disk_pop_update_mode (disk))
+		goto error;
 
 	return max_geom;
+
+error:
+	if (max_geom)
+		ped_geometry_destroy (max_geom);
+	return NULL;
 }
 
 /**
-- 
2.43.0


From db88ca4d804e6a613e34f3f39966d78776f146eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 09/96] fix: bsd: unsigned 32-bit arithmetic for sizes and
 offsets

---
 libparted/labels/bsd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 38bc64c..56cd3f4 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -199,7 +199,7 @@ bsd_alloc (const PedDevice* dev)
 	label->d_secpercyl = PED_CPU_TO_LE32 (dev->bios_geom.sectors
 						* dev->bios_geom.heads);
 	label->d_secperunit
-		= PED_CPU_TO_LE32 (dev->bios_geom.sectors
+		= PED_CPU_TO_LE32 ((uint32_t) dev->bios_geom.sectors
 				   * dev->bios_geom.heads
 				   * dev->bios_geom.cylinders);
 
@@ -276,8 +276,8 @@ bsd_read (PedDisk* disk)
 		    || !label->d_partitions[i - 1].p_fstype)
 			continue;
 		start = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset);
-		end = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset)
-		      + PED_LE32_TO_CPU(label->d_partitions[i - 1].p_size) - 1;
+		end = start + PED_LE32_TO_CPU(label->d_partitions[i - 1].p_size)
+		      - 1;
 		part = ped_partition_new (disk, PED_PARTITION_NORMAL,
                                           NULL, start, end);
 		if (!part)
-- 
2.43.0


From 77e7fe9cdeeb9a31dc9a7ee6074e245de550f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 10/96] fix: loop: duplicate keeps a deleted partition deleted

---
 libparted/labels/loop.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 45d169d..691739d 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -103,7 +103,11 @@ loop_alloc (const PedDevice* dev)
 static PedDisk*
 loop_duplicate (const PedDisk* disk)
 {
-	return ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	PedDisk *new_disk = ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	/* remove the default partition - the caller duplicates the real one */
+	if (new_disk)
+		ped_disk_delete_all (new_disk);
+	return new_disk;
 }
 
 static void
-- 
2.43.0


From 02dc549da8ea078d4aa66473a9cdf3c89881a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 11/96] fix: dvh: duplicate, boot file sizes, names and boot
 flag

---
 libparted/labels/dvh.c | 70 +++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7d7dae3..6cd61ef 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -56,7 +56,7 @@ typedef struct _DVHDiskData {
 typedef struct _DVHPartData {
 	int	type;
 	char	name[VDNAMESIZE + 1];	/* boot volumes only */
-	int	real_file_size;		/* boot volumes only */
+	uint32_t	real_file_size;	/* boot volumes only */
 } DVHPartData;
 
 static PedDiskType dvh_disk_type;
@@ -126,27 +126,21 @@ static PedDisk*
 dvh_duplicate (const PedDisk* disk)
 {
 	PedDisk*	new_disk;
-	DVHDiskData*	new_dvh_disk_data;
 	DVHDiskData*	old_dvh_disk_data = disk->disk_specific;
 
 	PED_ASSERT (old_dvh_disk_data != NULL);
 
 	new_disk = ped_disk_new_fresh (disk->dev, &dvh_disk_type);
 	if (!new_disk)
-		goto error;
+		return NULL;
 
-	new_disk->disk_specific = new_dvh_disk_data
-		= ped_malloc (sizeof (DVHDiskData));
-	if (!new_dvh_disk_data)
-		goto error_free_new_disk;
+	/* remove the default volume header partition - the partitions are
+	   duplicated by the caller */
+	ped_disk_delete_all (new_disk);
 
-	new_dvh_disk_data->dev_params = old_dvh_disk_data->dev_params;
+	memcpy (new_disk->disk_specific, old_dvh_disk_data,
+		sizeof (DVHDiskData));
 	return new_disk;
-
-error_free_new_disk:
-	free (new_disk);
-error:
-	return NULL;
 }
 
 static void
@@ -241,10 +235,10 @@ _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 	PedPartition*	part;
 	DVHPartData*	dvh_part_data;
 	PedSector	start = PED_BE32_TO_CPU (vd->vd_lbn);
-	int		length = PED_BE32_TO_CPU (vd->vd_nbytes);
+	PedSector	length = PED_BE32_TO_CPU (vd->vd_nbytes);
 
 	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL,
-				  start, start + length/512 - 1);
+				  start, start + (length + 511) / 512 - 1);
 	if (!part)
 		return NULL;
 
@@ -382,7 +376,8 @@ dvh_read (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 		part->num = NPARTAB + i + 1;
 
-		if (!strcmp (boot_name, ped_partition_get_name (part)))
+		if (*boot_name
+		    && !strcmp (boot_name, ped_partition_get_name (part)))
 			ped_partition_set_flag (part, PED_PARTITION_BOOT, 1);
 
 		PedConstraint *constraint_exact
@@ -427,11 +422,17 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	/* Assert it's a bootfile */
 	PED_ASSERT ((part->type & PED_PARTITION_LOGICAL) != 0);
 
+	/* the file may have been resized since its size was recorded */
+	if (((PedSector) dvh_part_data->real_file_size + 511) / 512
+	    != part->geom.length)
+		dvh_part_data->real_file_size = part->geom.length * 512;
+
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
 	memset (vd->vd_name, 0, VDNAMESIZE);
-	memcpy (vd->vd_name, dvh_part_data->name, VDNAMESIZE);
+	memcpy (vd->vd_name, dvh_part_data->name,
+		strlen (dvh_part_data->name));
 }
 
 static int
@@ -616,7 +617,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->root = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->root = part->num;
+		else if (dvh_disk_data->root == part->num)
+			dvh_disk_data->root = 0;
 		break;
 
 	case PED_PARTITION_SWAP:
@@ -630,7 +634,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 			return 0;
 #endif
 		}
-		dvh_disk_data->swap = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->swap = part->num;
+		else if (dvh_disk_data->swap == part->num)
+			dvh_disk_data->swap = 0;
 		break;
 
 	case PED_PARTITION_BOOT:
@@ -644,7 +651,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->boot = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->boot = part->num;
+		else if (dvh_disk_data->boot == part->num)
+			dvh_disk_data->boot = 0;
 		break;
 
 	case PED_PARTITION_LVM:
@@ -709,7 +719,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 
 	if (part->type == PED_PARTITION_LOGICAL) {
 		/* Bootfile */
-		memcpy (dvh_part_data->name, name, VDNAMESIZE);
+		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
 	} else {
 #ifndef DISCOVER_ONLY
@@ -751,6 +761,17 @@ _get_primary_constraint (PedDisk* disk)
         return ped_constraint_new_from_max (&max_geom);
 }
 
+/* The size in bytes of a boot file is stored in 32 bits. */
+static PedConstraint*
+_get_logical_constraint (PedDisk* disk)
+{
+	PedConstraint*	constraint = _get_primary_constraint (disk);
+	if (constraint)
+		constraint->max_size = PED_MIN (constraint->max_size,
+						UINT32_MAX / 512);
+	return constraint;
+}
+
 static int
 dvh_partition_align (PedPartition* part, const PedConstraint* constraint)
 {
@@ -760,6 +781,8 @@ dvh_partition_align (PedPartition* part, const PedConstraint* constraint)
 			part, constraint,
 			(part->type == PED_PARTITION_EXTENDED)
 				? _get_extended_constraint (part->disk)
+			: (part->type & PED_PARTITION_LOGICAL)
+				? _get_logical_constraint (part->disk)
 				: _get_primary_constraint (part->disk)))
 		return 1;
 
@@ -791,7 +814,10 @@ dvh_partition_enumerate (PedPartition* part)
 				return 1;
 			}
 		}
-		PED_ASSERT (0);
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many boot files"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
-- 
2.43.0


From 4409987413e76f9454606668083c14d869c85a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 12/96] fix: pc98: cylinder limit, leak, clearing boot and
 hidden

---
 libparted/labels/pc98.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 5d2d336..d80be91 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -452,8 +452,10 @@ pc98_write (const PedDisk* disk)
 		if (!part)
 			continue;
 
-		if (!fill_raw_part (&table->partitions [i - 1], part))
+		if (!fill_raw_part (&table->partitions [i - 1], part)) {
+			free (s0);
 			return 0;
+		}
 	}
 
 	int write_ok = ped_device_write (disk->dev, table, 0, 2);
@@ -575,11 +577,13 @@ pc98_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
 		pc98_data->hidden = state;
-		return ped_partition_set_system (part, part->fs_type);
+		SET_BIT (pc98_data->system, 7, !state);
+		return 1;
 
 	case PED_PARTITION_BOOT:
 		pc98_data->boot = state;
-		return ped_partition_set_system (part, part->fs_type);
+		SET_BIT (pc98_data->system, 15, state);
+		return 1;
 
 	default:
 		return 0;
@@ -667,15 +671,18 @@ _primary_constraint (PedDisk* disk)
 	PedAlignment	end_align;
 	PedGeometry	max_geom;
 	PedSector	cylinder_size;
+	PedSector	max_end;
 
 	cylinder_size = dev->hw_geom.sectors * dev->hw_geom.heads;
+	/* cylinder numbers are stored in 16 bits */
+	max_end = PED_MIN (dev->length, 65536 * cylinder_size);
 
 	if (!ped_alignment_init (&start_align, 0, cylinder_size))
 		return NULL;
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (!ped_geometry_init (&max_geom, dev, cylinder_size,
-			       	dev->length - cylinder_size))
+			       	max_end - cylinder_size))
 		return NULL;
 
 	return ped_constraint_new (&start_align, &end_align, &max_geom,
-- 
2.43.0


From bec6234cc0bd418a244212ecacbca9ced64ae8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 13/96] fix: amiga: partition order, block lists beyond the
 reserved area, numbers of duplicates

---
 libparted/labels/rdb.c | 131 ++++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 36 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 499d385..0194528 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -22,6 +22,7 @@
 */
 
 #include <config.h>
+#include <limits.h>
 
 #include <parted/parted.h>
 #include <parted/debug.h>
@@ -136,12 +137,13 @@ static int
 _amiga_checksum (struct AmigaBlock *blk) {
 	uint32_t *rdb = (uint32_t *) blk;
 	uint32_t sum;
-	int i, end;
+	uint32_t i, end;
 
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end > PED_SECTOR_SIZE_DEFAULT / sizeof (uint32_t))
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof (uint32_t);
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
@@ -487,6 +489,14 @@ amiga_read (PedDisk* disk)
 		return 0;
 	}
 
+	if (rdb->rdb_Heads == 0 || rdb->rdb_Sectors == 0
+	    || PED_BE32_TO_CPU (rdb->rdb_Heads)
+	       > INT_MAX / PED_BE32_TO_CPU (rdb->rdb_Sectors)) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The geometry in the RDB is invalid."));
+		return 0;
+	}
+
 	/* Let's copy the rdb read geometry to the dev */
 	/* FIXME: should this go into disk->dev->bios_geom instead? */
 	disk->dev->hw_geom.cylinders = PED_BE32_TO_CPU (rdb->rdb_Cylinders);
@@ -560,19 +570,26 @@ amiga_read (PedDisk* disk)
 }
 
 static int
-_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
+_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table, size_t tab_size,
 	struct LinkedBlock *block, uint32_t first, uint32_t type)
 {
-	PedSector next;
+	uint32_t next, current;
 
 	PED_ASSERT(disk != NULL);
 	PED_ASSERT(disk->dev != NULL);
 
-	for (next = first; next != LINK_END; next = PED_BE32_TO_CPU(block->lk_Next)) {
-		if (table[next] != IDNAME_FREE) {
+	for (current = first; current != LINK_END; current = next) {
+		if (current >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : The %s list leaves the reserved area at block %u."),
+				__func__, _amiga_block_id(type), current);
+			return 0;
+		}
+		if (table[current] != IDNAME_FREE) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_FIX | PED_EXCEPTION_IGNORE | PED_EXCEPTION_CANCEL,
-				_("%s : Loop detected at block %d."), __func__, next))
+				_("%s : Loop detected at block %u."), __func__, current))
 			{
 				case PED_EXCEPTION_CANCEL :
 					return 0;
@@ -585,14 +602,14 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 			}
 		}
 
-		if (!_amiga_read_block (disk->dev, AMIGA(block), next, NULL)) {
+		if (!_amiga_read_block (disk->dev, AMIGA(block), current, NULL)) {
 			return 0;
 		}
 		if (PED_BE32_TO_CPU(block->lk_ID) != type) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-				_("%s : The %s list seems bad at block %s."),
-				__func__, _amiga_block_id(PED_BE32_TO_CPU(block->lk_ID)), next))
+				_("%s : The %s list seems bad at block %u."),
+				__func__, _amiga_block_id(type), current))
 			{
 				/* TODO : to more subtile things here */
 				case PED_EXCEPTION_CANCEL :
@@ -601,9 +618,11 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 					return 0;
 			}
 		}
-		table[next] = type;
-		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
-			if (_amiga_find_free_blocks(disk, table, block,
+		table[current] = type;
+		/* The block buffer is reused for the blocks linked below.  */
+		next = PED_BE32_TO_CPU(block->lk_Next);
+		if (type == IDNAME_FILESYSHEADER) {
+			if (_amiga_find_free_blocks(disk, table, tab_size, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
 		}
@@ -611,19 +630,24 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	return 1;
 }
 static uint32_t _GL_ATTRIBUTE_PURE
-_amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
-	int i;
+_amiga_next_free_block(uint32_t *table, size_t tab_size,
+		       uint32_t start, uint32_t type) {
+	uint32_t i;
 
-	for (i = start; table[i] != type && table[i] != IDNAME_FREE; i++);
+	for (i = start; i < tab_size
+			&& table[i] != type && table[i] != IDNAME_FREE; i++);
 	return i;
 }
-static PedPartition * _GL_ATTRIBUTE_PURE
+/* The partitions are numbered by their position in the list of partition
+   blocks, so they have to be linked in that order.  */
+static PedPartition *
 _amiga_next_real_partition(const PedDisk *disk, PedPartition *part) {
-	PedPartition *next;
+	PedPartition *next = NULL;
+	int num = part ? part->num : 0;
+	int last = ped_disk_get_last_partition_num (disk);
 
-	for (next = ped_disk_next_partition (disk, part);
-		next != NULL && !ped_partition_is_active (next);
-		next = ped_disk_next_partition (disk, next));
+	while (next == NULL && ++num <= last)
+		next = ped_disk_get_partition (disk, num);
 	return next;
 }
 #ifndef DISCOVER_ONLY
@@ -634,7 +658,7 @@ amiga_write (const PedDisk* disk)
 	struct LinkedBlock *block;
 	struct PartitionBlock *partition;
 	PedPartition *part, *next_part;
-	PedSector cylblocks, first_hb, last_hb;
+	PedSector cylblocks, last_hb;
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
@@ -654,6 +678,17 @@ amiga_write (const PedDisk* disk)
                    with a partition block in amiga_read.  */
 		memset ((char *)(RDSK(disk->disk_specific)) + pb_size,
 			0, PED_SECTOR_SIZE_DEFAULT - pb_size);
+		/* None of the blocks that were listed is there any more.  */
+		RDSK(disk->disk_specific)->rdb_BadBlockList
+			= PED_CPU_TO_BE32 (LINK_END);
+		RDSK(disk->disk_specific)->rdb_PartitionList
+			= PED_CPU_TO_BE32 (LINK_END);
+		RDSK(disk->disk_specific)->rdb_FileSysHeaderList
+			= PED_CPU_TO_BE32 (LINK_END);
+		RDSK(disk->disk_specific)->rdb_DriveInit
+			= PED_CPU_TO_BE32 (LINK_END);
+		RDSK(disk->disk_specific)->rdb_BootBlockList
+			= PED_CPU_TO_BE32 (LINK_END);
 	} else {
 		memcpy (RDSK(disk->disk_specific), rdb, disk->dev->sector_size);
 	}
@@ -662,14 +697,19 @@ amiga_write (const PedDisk* disk)
 
 	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
 		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	first_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksLo);
 	last_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksHi);
 
-	/* Allocate a free block table and initialize it.
-	   There must be room for at least RDB_NUM + 2 entries, since
-	   the first RDB_NUM+1 entries get IDNAME_RIGIDDISK, and the
-	   following one must have LINK_END to serve as sentinel.  */
-	size_t tab_size = 2 + MAX (last_hb - first_hb, rdb_num);
+	if (last_hb >= disk->dev->length) {
+		ped_exception_throw(PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The area reserved for the RDB ends outside of the device."));
+		return 0;
+	}
+
+	/* Allocate a free block table and initialize it.  It is indexed
+	   by block number, and the first RDB_NUM+1 entries get
+	   IDNAME_RIGIDDISK.  */
+	size_t tab_size = 1 + MAX (last_hb, rdb_num);
 	if (!(table = ped_malloc (tab_size * sizeof *table)))
 		return 0;
 
@@ -685,7 +725,7 @@ amiga_write (const PedDisk* disk)
 	}
 
 	/* And fill the free block table */
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -693,7 +733,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list bad blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_PartitionList), IDNAME_PARTITION) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -701,7 +741,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list partition blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_FileSysHeaderList), IDNAME_FILESYSHEADER) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -709,7 +749,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list file system blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BootBlockList), IDNAME_BOOT) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -718,8 +758,25 @@ amiga_write (const PedDisk* disk)
 		goto error_free_table;
 	}
 
-	block_num = part_num = _amiga_next_free_block(table, rdb_num+1,
-                                                      IDNAME_PARTITION);
+	/* Make sure that there is room for every partition block before
+	   overwriting anything.  */
+	next_num = rdb_num;
+	for (part = _amiga_next_real_partition(disk, NULL); part != NULL;
+	     part = _amiga_next_real_partition(disk, part)) {
+		next_num = _amiga_next_free_block(table, tab_size, next_num+1,
+						  IDNAME_PARTITION);
+		if (next_num >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("Not enough room for the partition blocks in the "
+				  "area reserved for the RDB."));
+			goto error_free_table;
+		}
+	}
+
+	block_num = part_num = _amiga_next_free_block(table, tab_size,
+						      rdb_num+1,
+						      IDNAME_PARTITION);
 	part = _amiga_next_real_partition(disk, NULL);
 	rdb->rdb_PartitionList = PED_CPU_TO_BE32(part ? part_num : LINK_END);
 	for (; part != NULL; part = next_part, block_num = next_num) {
@@ -728,7 +785,8 @@ amiga_write (const PedDisk* disk)
 		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
 
 		next_part = _amiga_next_real_partition(disk, part);
-		next_num = _amiga_next_free_block(table, block_num+1, IDNAME_PARTITION);
+		next_num = _amiga_next_free_block(table, tab_size, block_num+1,
+						  IDNAME_PARTITION);
 
 		partition = PART(part->disk_specific);
 		if (next_part == NULL)
@@ -798,7 +856,7 @@ amiga_partition_new (const PedDisk* disk, PedPartitionType part_type,
 			return NULL;
 		}
 		partition = PART(part->disk_specific);
-		memset(partition, 0, sizeof(struct PartitionBlock));
+		memset(partition, 0, disk->dev->sector_size);
 
 		partition->pb_ID = PED_CPU_TO_BE32(IDNAME_PARTITION);
 		partition->pb_SummedLongs = PED_CPU_TO_BE32(64);
@@ -853,6 +911,7 @@ amiga_partition_duplicate (const PedPartition* part)
 				      part->geom.end);
 	if (!new_part)
 		return NULL;
+	new_part->num = part->num;
 
 	new_amiga_part = (struct PartitionBlock *) new_part->disk_specific;
 	memcpy (new_amiga_part, old_amiga_part, 256);
-- 
2.43.0


From c811ba5d950ecb9abdb5b269a4330671c4d31a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 14/96] fix: sun: never store zero cylinders

---
 libparted/labels/sun.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 853576b..bde0fbb 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -467,17 +467,20 @@ sun_write (const PedDisk* disk)
 	   smaller than it really is, but we'll have that problem even if we
 	   don't do this.  */
 
-	if (disk->dev->bios_geom.cylinders > 65536) {
+	int cylinders = disk->dev->bios_geom.cylinders;
+	if (cylinders > 65535) {
 		ped_exception_throw (
 			PED_EXCEPTION_WARNING,
 			PED_EXCEPTION_IGNORE,
 			_("The disk has %d cylinders, which is greater than "
-			  "the maximum of 65536."),
-			disk->dev->bios_geom.cylinders);
+			  "the maximum of 65535."),
+			cylinders);
+		/* Zero cylinders would make the label unreadable.  */
+		cylinders = 65535;
 	}
 
-	label->pcylcount = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders);
-	label->ncyl = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders
+	label->pcylcount = PED_CPU_TO_BE16 (cylinders);
+	label->ncyl = PED_CPU_TO_BE16 (cylinders
 			- PED_BE16_TO_CPU (label->nacyl));
 
 	sun_compute_checksum (label);
-- 
2.43.0


From 5bd6a405a3052870475469a77a9d1db2c72e8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 15/96] fix: dos: extended partition constraints, type ids, Sun
 labels, short writes

---
 libparted/labels/dos.c | 89 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 15 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..009e367 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -288,10 +288,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16_LBA;
 		break;
 
+	    case PARTITION_FAT16_H:
+		*type_id = PARTITION_FAT16_LBA_H;
+		break;
+
 	    case PARTITION_FAT32:
 		*type_id = PARTITION_FAT32_LBA;
 		break;
 
+	    case PARTITION_FAT32_H:
+		*type_id = PARTITION_FAT32_LBA_H;
+		break;
+
 	    case PARTITION_DOS_EXT:
 		*type_id = PARTITION_EXT_LBA;
 		break;
@@ -305,10 +313,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16;
 		break;
 
+	    case PARTITION_FAT16_LBA_H:
+		*type_id = PARTITION_FAT16_H;
+		break;
+
 	    case PARTITION_FAT32_LBA:
 		*type_id = PARTITION_FAT32;
 		break;
 
+	    case PARTITION_FAT32_LBA_H:
+		*type_id = PARTITION_FAT32_H;
+		break;
+
 	    case PARTITION_EXT_LBA:
 		*type_id = PARTITION_DOS_EXT;
 		break;
@@ -456,6 +472,24 @@ fat_probe_fat32 (PedGeometry* geom);
 PedGeometry*
 ntfs_probe (PedGeometry* geom);
 
+/* Whether LABEL, a sector of 512 bytes or more, is a Sun disk label with a
+   correct checksum.  */
+static int _GL_ATTRIBUTE_PURE
+is_sun_label (const void *label)
+{
+	const uint8_t *p = label;
+	uint8_t even = 0, odd = 0;
+	int i;
+
+	if (p[508] != 0xda || p[509] != 0xbe)
+		return 0;
+	for (i = 0; i < 512; i += 2) {
+		even ^= p[i];
+		odd ^= p[i + 1];
+	}
+	return even == 0 && odd == 0;
+}
+
 static int
 msdos_probe (const PedDevice *dev)
 {
@@ -480,6 +514,10 @@ msdos_probe (const PedDevice *dev)
 	if (PED_LE16_TO_CPU (part_table->magic) != MSDOS_MAGIC)
 		goto probe_fail;
 
+	/* The checksum of a Sun disk label is where our magic is.  */
+	if (is_sun_label (label))
+		goto probe_fail;
+
 	geom = ped_geometry_new (dev, 0, dev->length);
 	PED_ASSERT (geom);
 	fsgeom = fat_probe_fat16 (geom);
@@ -1394,19 +1432,20 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
+	DosRawTable*		table;
 	void*			table_sector;
 
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	if (!ptt_read_sector (disk->dev, sector, &table_sector))
+		return 0;
+	table = table_sector;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	int write_ok = ped_device_write (disk->dev, table_sector, sector, 1);
+	free (table_sector);
+	return write_ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
@@ -1711,7 +1750,8 @@ msdos_partition_is_flag_available (const PedPartition* part,
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-		return dos_type_id_supports_hidden(dos_data->system);
+		return part->type != PED_PARTITION_EXTENDED
+			&& dos_type_id_supports_hidden(dos_data->system);
 
 	case PED_PARTITION_LBA:
 		return dos_type_id_supports_lba(dos_data->system);
@@ -1729,6 +1769,18 @@ int
 msdos_partition_set_type_id (PedPartition* part, uint8_t id)
 {
         DosPartitionData* dos_data = part->disk_specific;
+        DosRawPartition raw_part = { .type = id };
+
+        /* The id tells extended, other and unused entries apart. */
+        if (id == PARTITION_EMPTY
+            || (raw_part_is_extended (&raw_part)
+                != (part->type == PED_PARTITION_EXTENDED))) {
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR,
+                        PED_EXCEPTION_CANCEL,
+                        _("Invalid type for this partition."));
+                return 0;
+        }
 
         dos_data->system = id;
 
@@ -1891,6 +1943,8 @@ _primary_start_constraint (const PedDisk* disk,
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (min_geom) {
+		if (min_geom->start < start_pos)
+			return NULL;
 		if (!ped_geometry_init (&start_geom, dev, start_pos, 1))
 			return NULL;
 		if (!ped_geometry_init (&end_geom, dev, min_geom->end,
@@ -1982,14 +2036,18 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 	 * room for LILO.  See linux/fs/partitions/msdos.c.
 	 */
 	ped_geometry_set_start (min_geom,
-				walk->geom.start - PED_MAX (1 * head_size, 2));
+				PED_MAX (walk->geom.start
+					 - PED_MAX (1 * head_size, 2), 1));
 
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		/* Its metadata must not overlap that of the first one, which
+		 * lies at the start of the extended partition.
+		 */
+		if (walk->geom.start - 2 * head_size < min_geom->start)
 			ped_geometry_set_start (min_geom,
-					walk->geom.start - 2 * head_size);
+				PED_MAX (walk->geom.start - 2 * head_size, 1));
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
 	}
@@ -2085,7 +2143,7 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	max_end = ext_part->geom.end;
 
 	while (walk != NULL             /*      2)                         2) */
-		&& (   walk->geom.start - (walk->num != 5) < geom->start - not_5
+		&& (   walk->geom.start < geom->start
 		    || walk->geom.start - (walk->num != 5) <= min_start )) {
 		if (walk != part && ped_partition_is_active (walk))
 			min_start = walk->geom.end + 1 + not_5; /* 2) */
@@ -2098,7 +2156,7 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	if (walk)
 		max_end = walk->geom.start - 1 - (walk->num != 5); /* 2) */
 
-	if (min_start >= max_end)
+	if (min_start > max_end)
 		return NULL;
 
 	ped_geometry_init (&safe_space, part->disk->dev,
@@ -2496,7 +2554,8 @@ msdos_alloc_metadata (PedDisk* disk)
 
 		partition_probe_bios_geometry (ext_part, &bios_geom);
 		start = ext_part->geom.start;
-		end = start + bios_geom.sectors - 1;
+		end = PED_MIN (start + bios_geom.sectors - 1,
+			       ext_part->geom.end);
 		if (ext_part->part_list)
 			end = PED_MIN (end,
 				       ext_part->part_list->geom.start - 1);
-- 
2.43.0


From b8c02730d55291879d3b87226e4cbe78bcbb6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 16/96] fix: atari: logical partition constraints and partition
 limit

---
 libparted/labels/atari.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8ab3720..2a43926 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1430,8 +1430,7 @@ atr_log_constraint (const PedPartition* part)
 	max_end = ext_part->geom.end;
 
 	while (walk != NULL
-		&& (   walk->geom.start - (walk->num != first_log)
-						< geom->start - not_first
+		&& (   walk->geom.start < geom->start
 		    || walk->geom.start - (walk->num != first_log)
 						< min_start ) ) {
 		if (walk != part && ped_partition_is_active (walk))
@@ -1445,7 +1444,7 @@ atr_log_constraint (const PedPartition* part)
 	if (walk)
 		max_end = walk->geom.start - 1 - (walk->num != first_log);
 
-	if (min_start >= max_end)
+	if (min_start > max_end)
 		return NULL;
 
 	ped_geometry_init (&safe_space, dev, min_start,
@@ -1476,7 +1475,7 @@ art_min_extended_geom (const PedPartition* ext_part)
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == first_log)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		if (walk->geom.start - 2 < min_geom->start)
 			ped_geometry_set_start (min_geom, walk->geom.start - 2);
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
@@ -1932,7 +1931,7 @@ atari_get_max_supported_partition_count (const PedDisk* disk, int *max_n)
 	atr_disk = ATARI_DISK (disk);
 	PED_ASSERT (atr_disk != NULL);
 
-	*max_n = atr_disk->format == FMT_XGM ? N_AHDI : N_AHDI + N_ICD;
+	*max_n = atr_disk->format == FMT_XGM ? MAXIMUM_PARTS : N_AHDI + N_ICD;
         return true;
 }
 
-- 
2.43.0


From 31e0ef4a0fe26fcd079ee60b996caf883f2906d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 17/96] fix: mac: keep the partition map consistent

---
 libparted/labels/mac.c | 60 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 8409dda..f8319a7 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -216,6 +216,13 @@ mac_probe (const PedDevice * dev)
 	return valid;
 }
 
+static int _GL_ATTRIBUTE_PURE
+_partition_is_map (const PedPartition* part)
+{
+	const MacPartitionData*	mac_data = part->disk_specific;
+	return strcasecmp (mac_data->system_name, "Apple_partition_map") == 0;
+}
+
 static int
 _disk_add_part_map_entry (PedDisk* disk, int warn)
 {
@@ -253,7 +260,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
-		= new_part->geom.end - mac_disk_data->ghost_size;
+		= new_part->geom.end - mac_disk_data->ghost_size + 1;
 	ped_constraint_destroy (constraint_any);
 	return 1;
 
@@ -292,6 +299,8 @@ mac_alloc (const PedDevice* dev)
 		goto error_free_disk;
 	disk->disk_specific = mac_disk_data;
 	mac_disk_data->ghost_size = 1;
+	mac_disk_data->part_map_entry_count = 0;
+	mac_disk_data->part_map_entry_num = 0;
 	mac_disk_data->active_part_entry_count = 0;
 	mac_disk_data->free_part_entry_count = 1;
 	mac_disk_data->last_part_entry_num = 1;
@@ -1054,11 +1063,22 @@ mac_write (PedDisk* disk)
 
 	mac_disk_data = disk->disk_specific;
 
-	if (!ped_disk_get_partition (disk, mac_disk_data->part_map_entry_num)) {
+	part = ped_disk_get_partition (disk, mac_disk_data->part_map_entry_num);
+	if (!part || !_partition_is_map (part)) {
 		if (!_disk_add_part_map_entry (disk, 1))
 			goto error;
 	}
 
+	if (mac_disk_data->last_part_entry_num * mac_disk_data->ghost_size
+	    > mac_disk_data->part_map_entry_count) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The partition map is too small to hold all "
+			  "partitions and free regions!"));
+		goto error;
+	}
+
 	mac_driverdata = ped_malloc(sizeof(MacDiskData));
 	if (!mac_driverdata)
 		goto error;
@@ -1103,7 +1123,7 @@ mac_write (PedDisk* disk)
 	free (part_map);
 	int write_ok = write_block_zero (disk, mac_driverdata);
 	free (mac_driverdata);
-	return write_ok;
+	return write_ok && ped_device_sync (disk->dev);
 
 error_free_part_map:
 	free (part_map);
@@ -1184,6 +1204,10 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 
 	part->fs_type = fs_type;
 
+	/* without its type the partition map would not be found again */
+	if (_partition_is_map (part))
+		return 1;
+
 	if (fs_type && is_linux_swap (fs_type->name))
 		ped_partition_set_flag (part, PED_PARTITION_SWAP, 1);
 
@@ -1313,6 +1337,10 @@ static int
 mac_partition_is_flag_available (
 	const PedPartition* part, PedPartitionFlag flag)
 {
+	/* the flags replace the type or the name of the partition map */
+	if (_partition_is_map (part))
+		return 0;
+
 	switch (flag) {
 	case PED_PARTITION_BOOT:
 	case PED_PARTITION_ROOT:
@@ -1392,13 +1420,37 @@ _primary_constraint (PedDisk* disk)
 				   &max_geom, 1, disk->dev->length);
 }
 
+static int
+_have_part_map (const PedDisk* disk)
+{
+	const MacDiskData*	mac_disk_data = disk->disk_specific;
+	return mac_disk_data->part_map_entry_num > 0;
+}
+
+/* The map occupies exactly the entries that are written to it. */
+static PedConstraint*
+_part_map_constraint (PedDisk* disk)
+{
+	MacDiskData*	mac_disk_data = disk->disk_specific;
+	PedGeometry	map_geom;
+
+	if (!ped_geometry_init (&map_geom, disk->dev,
+				mac_disk_data->ghost_size,
+				mac_disk_data->part_map_entry_count))
+		return NULL;
+
+	return ped_constraint_exact (&map_geom);
+}
+
 static int
 mac_partition_align (PedPartition* part, const PedConstraint* constraint)
 {
 	PED_ASSERT (part != NULL);
 
 	if (_ped_partition_attempt_align (part, constraint,
-					  _primary_constraint (part->disk)))
+			_partition_is_map (part) && _have_part_map (part->disk)
+				? _part_map_constraint (part->disk)
+				: _primary_constraint (part->disk)))
 	       	return 1;
 
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From 0bd45d751df648f40069c92cceaf52c5a8ab1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 18/96] fix: gpt: a name that cannot be stored leaves the old
 one

---
 libparted/labels/gpt.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..6b8b429 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1703,20 +1703,26 @@ gpt_partition_set_name (PedPartition *part, const char *name)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
 
-  free(gpt_part_data->translated_name);
-  gpt_part_data->translated_name = xstrdup(name);
+  char *new_name = xstrdup (name);
+  efi_char16_t raw_name[36];
+  memset (raw_name, 0, sizeof raw_name);
   iconv_t conv = iconv_open ("UCS-2LE", nl_langinfo (CODESET));
   if (conv == (iconv_t)-1)
     goto err;
-  char *inbuff = gpt_part_data->translated_name;
-  char *outbuff = (char *)&gpt_part_data->name;
-  size_t inbuffsize = strlen (inbuff) + 1;
-  size_t outbuffsize = 72;
+  char *inbuff = new_name;
+  char *outbuff = (char *)raw_name;
+  size_t inbuffsize = strlen (inbuff);
+  size_t outbuffsize = sizeof raw_name;
   if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
     goto err;
   iconv_close (conv);
+  memcpy (gpt_part_data->name, raw_name, sizeof raw_name);
+  free (gpt_part_data->translated_name);
+  gpt_part_data->translated_name = new_name;
   return;
  err:
+  /* Keep the old name rather than one that cannot be stored.  */
+  free (new_name);
   ped_exception_throw (PED_EXCEPTION_WARNING,
                        PED_EXCEPTION_IGNORE,
                        _("failed to translate partition name"));
-- 
2.43.0


From 5340b2a6492801286e7217058e23b8216399d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 19/96] fix: bsd: checksum and partition count cover what is
 written

---
 libparted/labels/bsd.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 56cd3f4..9e9174b 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -105,7 +105,6 @@ struct _BSDRawLabel {
 	uint16_t	d_npartitions;		/* number of partitions in following */
 	uint32_t	d_bbsize;		/* size of boot area at sn0, bytes */
 	uint32_t	d_sbsize;		/* max size of fs superblock, bytes */
-#define D_PARTITIONS_WORDS	59
 	BSDRawPartition d_partitions[BSD_MAXPARTITIONS];	/* actually may be more */
 } __attribute__((packed, aligned(2)));
 
@@ -128,7 +127,7 @@ static PedDiskType bsd_disk_type;
 static unsigned short
 xbsd_dkcksum (BSDRawLabel *lp) {
 	const u_short* word = (u_short*)(lp);
-	const u_short* end = word + D_PARTITIONS_WORDS + PED_LE16_TO_CPU(lp->d_npartitions);
+	const u_short* end = (u_short*)&lp->d_partitions[PED_LE16_TO_CPU(lp->d_npartitions)];
 	u_short sum;
 
 	lp->d_checksum = 0;
@@ -356,7 +355,11 @@ bsd_write (const PedDisk* disk)
 		max_part = i;
 	}
 
-	label->d_npartitions = PED_CPU_TO_LE16 (max_part + 1);
+	/* There is room for BSD_MAXPARTITIONS entries only: what follows
+	   them is boot code.  */
+	if (max_part < BSD_MAXPARTITIONS)
+		max_part++;
+	label->d_npartitions = PED_CPU_TO_LE16 (max_part);
 	label->d_checksum = xbsd_dkcksum (label);
 
 	alpha_bootblock_checksum (bsd_specific);
-- 
2.43.0


From 055fac53352bc7daee8a1b79849eb59c7c61ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 20/96] fix: dos: keep the disk signature when there is no boot
 code

---
 libparted/labels/dos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 009e367..9b672f3 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1483,7 +1483,7 @@ msdos_write (const PedDisk* disk)
 	DosRawTable *table = (DosRawTable *) s0;
 
 	if (!table->boot_code[0]) {
-		memset (table, 0, 512);
+		memset (table->boot_code, 0, sizeof (table->boot_code));
 		memcpy (table->boot_code, MBR_BOOT_CODE, sizeof (MBR_BOOT_CODE));
 	}
 
-- 
2.43.0


From 9922516b11ae2c3224cdaf4468ddd913cd134182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 21/96] fix: sun: clamp the whole-disk slot to 32 bits

---
 libparted/labels/sun.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index bde0fbb..19dd4b5 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -441,8 +441,10 @@ sun_write (const PedDisk* disk)
 
 			label->infos[i].id = WHOLE_DISK_ID;
 			label->partitions[i].start_cylinder = 0;
+			/* The field has 32 bits.  */
 			label->partitions[i].num_sectors =
-				PED_CPU_TO_BE32(disk_data->length);
+				PED_CPU_TO_BE32 (PED_MIN (disk_data->length,
+							  (PedSector) UINT32_MAX));
 			continue;
 		}
 		if (!part)
-- 
2.43.0


From 7e14756b1148a6b658e47e20b0c354e8cbcce7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 22/96] fix: mac: do not store truncated sizes on devices
 beyond 2^32 blocks

---
 libparted/labels/mac.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index f8319a7..d8e59be 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -976,11 +976,13 @@ _generate_raw_freespace_part (PedDisk* disk, PedGeometry* geom, int num,
 	part_map_entry->map_count
 		= PED_CPU_TO_BE32 (mac_disk_data->last_part_entry_num);
 	part_map_entry->start_block = PED_CPU_TO_BE32 (geom->start);
-	part_map_entry->block_count = PED_CPU_TO_BE32 (geom->length);
+	part_map_entry->block_count
+		= PED_CPU_TO_BE32 (PED_MIN (geom->length,
+					    (PedSector) UINT32_MAX));
 	strcpy (part_map_entry->name, "Extra");
 	strcpy (part_map_entry->type, "Apple_Free");
 
-	part_map_entry->data_count = PED_CPU_TO_BE32 (geom->length);
+	part_map_entry->data_count = part_map_entry->block_count;
 	part_map_entry->status = 0;
 	part_map_entry->driver_sig = 0;
 
@@ -1036,7 +1038,8 @@ write_block_zero (PedDisk* disk, MacDiskData* mac_driverdata)
 
 	raw_disk->signature = PED_CPU_TO_BE16 (MAC_DISK_MAGIC);
 	raw_disk->block_size = PED_CPU_TO_BE16 (dev->sector_size);
-	raw_disk->block_count = PED_CPU_TO_BE32 (dev->length);
+	raw_disk->block_count = PED_CPU_TO_BE32 (PED_MIN (dev->length,
+							  (PedSector) UINT32_MAX));
 
 	raw_disk->driver_count = PED_CPU_TO_BE16(mac_driverdata->driver_count);
 	memcpy(&raw_disk->driverlist[0], &mac_driverdata->driverlist[0],
@@ -1105,6 +1108,9 @@ mac_write (PedDisk* disk)
 	     part = ped_disk_next_partition (disk, part)) {
 		if (part->type != PED_PARTITION_FREESPACE)
 			continue;
+		/* The map cannot describe blocks beyond 2^32.  */
+		if (part->geom.start > UINT32_MAX)
+			continue;
 		num = _get_first_empty_part_entry (disk, part_map);
 		if (!_generate_raw_freespace_part (disk, &part->geom, num,
 						   part_map))
-- 
2.43.0


From 043cb6144133ede8b23968d6785db0384a3b3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 23/96] fix: dvh: only write a volume header back when asked to

---
 libparted/labels/dvh.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 6cd61ef..96933bc 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -171,11 +171,12 @@ _handle_no_volume_header (PedDisk* disk)
 	PedPartition*		part;
 	PedConstraint*		constraint;
 
-	switch (ped_exception_throw (
+	ret = ped_exception_throw (
 		PED_EXCEPTION_WARNING,
 		PED_EXCEPTION_FIX + PED_EXCEPTION_CANCEL,
 		_("%s has no extended partition (volume header partition)."),
-		disk->dev->path)) {
+		disk->dev->path);
+	switch (ret) {
 		case PED_EXCEPTION_UNHANDLED:
 		case PED_EXCEPTION_FIX:
 		default:
@@ -191,7 +192,6 @@ _handle_no_volume_header (PedDisk* disk)
 			if (!ped_disk_add_partition (disk, part, constraint))
 				goto error_destroy_constraint;
 			ped_constraint_destroy (constraint);
-			ret = PED_EXCEPTION_FIX;
 			break;
 
 		case PED_EXCEPTION_CANCEL:
@@ -357,6 +357,7 @@ dvh_read (PedDisk* disk)
 				write_back = 1;
 				break;
 			default:
+				/* Nobody agreed to change the disk.  */
 				break;
 		}
 #endif
-- 
2.43.0


From 4779f28cf1a8203f6800017ecc4bdaa059c31b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 24/96] fix: gpt: look for the backup header when the primary's
 signature is damaged

---
 libparted/labels/gpt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 6b8b429..877ce7c 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -551,12 +551,15 @@ gpt_probe (const PedDevice *dev)
     }
   free (label);
 
+  /* Either header will do: the other one may be damaged.  */
+  PedSector const header_lba[] = { 1, dev->length - 1 };
   void *pth_raw = ped_malloc (pth_get_size (dev));
-  if (ped_device_read (dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (dev, pth_raw, dev->length - 1, GPT_HEADER_SECTORS))
+  for (int i = 0; pth_raw && i < 2 && !gpt_sig_found; i++)
     {
+      if (!ped_device_read (dev, pth_raw, header_lba[i], GPT_HEADER_SECTORS))
+        continue;
       GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
-      if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
+      if (gpt && gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
         gpt_sig_found = 1;
       pth_free (gpt);
     }
-- 
2.43.0


From c42563b82cc82893f883cdd2f46da344d65dd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 25/96] fix: amiga file systems: limit the checksum to the
 512-byte block that was read

---
 libparted/fs/amiga/amiga.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 1a909fc..9513f15 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -159,12 +159,13 @@ static int
 _amiga_checksum (struct AmigaBlock *blk) {
 	uint32_t *rdb = (uint32_t *) blk;
 	uint32_t sum;
-	int i, end;
+	uint32_t i, end;
 
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end > PED_SECTOR_SIZE_DEFAULT / sizeof (uint32_t))
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof (uint32_t);
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 41fc0d45acdde8d8eb9d39c20923b644f0db003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 26/96] fix: amiga: handle hostile RDBs (string lengths,
 geometry overflow)

---
 libparted/labels/rdb.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 0194528..8915521 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -52,10 +52,12 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-static const char * _amiga_get_bstr (char * bstr) {
+static const char * _amiga_get_bstr (char * bstr, int maxsize) {
 	char * cstr = bstr + 1;
-	int size = bstr[0];
+	int size = (unsigned char) bstr[0];
 
+	if (size >= maxsize)
+		size = maxsize - 1;
 	cstr[size] = '\0';
 	return cstr;
 }
@@ -402,7 +404,7 @@ amiga_alloc (const PedDevice* dev)
 	rdb->rdb_RDBBlocksLo = PED_CPU_TO_BE32 (0);
 	rdb->rdb_RDBBlocksHi = PED_CPU_TO_BE32 (highest_block);
 	rdb->rdb_LoCylinder = PED_CPU_TO_BE32 (highest_cylinder);
-	rdb->rdb_HiCylinder = PED_CPU_TO_BE32 (dev->hw_geom.cylinders -1);
+	rdb->rdb_HiCylinder = PED_CPU_TO_BE32 ((uint32_t) dev->hw_geom.cylinders - 1);
 	rdb->rdb_CylBlocks = PED_CPU_TO_BE32 (cyl_size);
 	rdb->rdb_AutoParkSeconds = PED_CPU_TO_BE32 (0);
 	/* rdb_HighRDSKBlock will only be set when writing */
@@ -466,6 +468,19 @@ _amiga_loop_check (uint32_t block, uint32_t * blocklist, uint32_t max)
 	return 0;
 }
 
+static int
+_amiga_check_geometry (const struct RigidDiskBlock *rdb)
+{
+	if (rdb->rdb_Heads == 0 || rdb->rdb_Sectors == 0
+	    || PED_BE32_TO_CPU (rdb->rdb_Heads)
+	       > INT_MAX / PED_BE32_TO_CPU (rdb->rdb_Sectors)) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The geometry in the RDB is invalid."));
+		return 0;
+	}
+	return 1;
+}
+
 /* We have already allocated a rdb, we are now reading it from the disk */
 static int
 amiga_read (PedDisk* disk)
@@ -489,13 +504,8 @@ amiga_read (PedDisk* disk)
 		return 0;
 	}
 
-	if (rdb->rdb_Heads == 0 || rdb->rdb_Sectors == 0
-	    || PED_BE32_TO_CPU (rdb->rdb_Heads)
-	       > INT_MAX / PED_BE32_TO_CPU (rdb->rdb_Sectors)) {
-		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
-			_("The geometry in the RDB is invalid."));
+	if (!_amiga_check_geometry (rdb))
 		return 0;
-	}
 
 	/* Let's copy the rdb read geometry to the dev */
 	/* FIXME: should this go into disk->dev->bios_geom instead? */
@@ -695,6 +705,8 @@ amiga_write (const PedDisk* disk)
 	free (rdb);
 	rdb = RDSK(disk->disk_specific);
 
+	if (!_amiga_check_geometry (rdb))
+		return 0;
 	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
 		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
 	last_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksHi);
@@ -1066,7 +1078,7 @@ amiga_partition_get_name (const PedPartition* part)
 
 	partition = PART(part->disk_specific);
 
-	return _amiga_get_bstr(partition->pb_DriveName);
+	return _amiga_get_bstr(partition->pb_DriveName, 32);
 }
 
 static PedAlignment*
-- 
2.43.0


From a2c5f1e0a16c8a857130444c4a5b0922fabcf4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 27/96] fix: mac: bound partition map sizes and driver
 descriptors read from the disk

---
 libparted/labels/mac.c | 51 +++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index d8e59be..4bab95a 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -158,7 +158,7 @@ struct _MacPartitionData {
 
 struct _MacDiskData {
 	int		ghost_size;		/* sectors per "driver" block */
-	int		part_map_entry_count;	/* # entries (incl. ghost) */
+	PedSector	part_map_entry_count;	/* # entries (incl. ghost) */
 	int		part_map_entry_num;	/* partition map location */
 
 	int		active_part_entry_count;	/* # real partitions */
@@ -636,7 +636,8 @@ _disk_analyse_block_size (PedDisk* disk, MacRawDisk* raw_disk)
 {
 	PedSector	block_size;
 
-	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512) {
+	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512
+	    || raw_disk->block_size == 0) {
 #ifndef DISCOVER_ONLY
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
@@ -773,9 +774,21 @@ mac_read (PedDisk* disk)
 		if (!_rawpart_check_signature (raw_part))
 			continue;
 
-		if (num == 1)
+		if (num == 1) {
 			last_part_entry_num
 				= _rawpart_get_partmap_size (raw_part, disk);
+			/* No map has more than 65536 entries.  */
+			if (last_part_entry_num < 0
+			    || last_part_entry_num > 65536) {
+#ifndef DISCOVER_ONLY
+				ped_exception_throw (
+					PED_EXCEPTION_ERROR,
+					PED_EXCEPTION_CANCEL,
+					_("No valid partition map found."));
+#endif
+				goto error_delete_all;
+			}
+		}
 		if (_rawpart_get_partmap_size (raw_part, disk)
 				!= last_part_entry_num) {
 			if (ped_exception_throw (
@@ -785,6 +798,7 @@ mac_read (PedDisk* disk)
 				  "Entry 1 says it is %d, but entry %d says "
 				  "it is %d!"),
 				last_part_entry_num,
+				num,
 				_rawpart_get_partmap_size (raw_part, disk))
 					!= PED_EXCEPTION_IGNORE)
 				goto error_delete_all;
@@ -1058,6 +1072,7 @@ mac_write (PedDisk* disk)
 	MacDiskData*		mac_driverdata;	/* updated driver list */
 	PedPartition*		part;
 	int			num;
+	bool			active_seen = false;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->disk_specific != NULL);
@@ -1073,7 +1088,8 @@ mac_write (PedDisk* disk)
 	}
 
 	if (mac_disk_data->last_part_entry_num * mac_disk_data->ghost_size
-	    > mac_disk_data->part_map_entry_count) {
+	    > mac_disk_data->part_map_entry_count
+	    || mac_disk_data->last_part_entry_num > 65536) {
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
 			PED_EXCEPTION_CANCEL,
@@ -1087,9 +1103,10 @@ mac_write (PedDisk* disk)
 		goto error;
 	memset (mac_driverdata, 0, sizeof(MacDiskData));
 
-        size_t pmap_bytes = (mac_disk_data->part_map_entry_count
-                             * mac_disk_data->ghost_size
-                             * disk->dev->sector_size);
+	/* No more than 65536 entries are ever used.  */
+	PedSector pmap_sectors = PED_MIN (mac_disk_data->part_map_entry_count,
+					  65536 * mac_disk_data->ghost_size);
+        size_t pmap_bytes = pmap_sectors * disk->dev->sector_size;
 	part_map = (MacRawPartition*) ped_calloc (pmap_bytes);
 	if (!part_map)
 		goto error_free_driverdata;
@@ -1106,12 +1123,24 @@ mac_write (PedDisk* disk)
 /* write the "free space" partitions */
 	for (part = ped_disk_next_partition (disk, NULL); part;
 	     part = ped_disk_next_partition (disk, part)) {
-		if (part->type != PED_PARTITION_FREESPACE)
+		/* Free space before the partition map is not counted by
+		   _disk_count_partitions, so it has no entry.  */
+		if (ped_partition_is_active (part))
+			active_seen = true;
+		if (part->type != PED_PARTITION_FREESPACE || !active_seen)
 			continue;
 		/* The map cannot describe blocks beyond 2^32.  */
 		if (part->geom.start > UINT32_MAX)
 			continue;
 		num = _get_first_empty_part_entry (disk, part_map);
+		if (!num) {
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("The partition map is too small to hold all "
+				  "partitions and free regions!"));
+			goto error_free_part_map;
+		}
 		if (!_generate_raw_freespace_part (disk, &part->geom, num,
 						   part_map))
 			goto error_free_part_map;
@@ -1123,8 +1152,7 @@ mac_write (PedDisk* disk)
 		_generate_empty_part (disk, num, part_map);
 
 /* write to disk */
-	if (!ped_device_write (disk->dev, part_map, 1,
-			       mac_disk_data->part_map_entry_count))
+	if (!ped_device_write (disk->dev, part_map, 1, pmap_sectors))
 		goto error_free_part_map;
 	free (part_map);
 	int write_ok = write_block_zero (disk, mac_driverdata);
@@ -1610,7 +1638,8 @@ mac_get_max_primary_partition_count (const PedDisk* disk)
 	 *     (I'm prepared to complicate things later, but I want to get
 	 * everything working, first)
 	 */
-	return mac_disk_data->part_map_entry_count / mac_disk_data->ghost_size
+	return PED_MIN (mac_disk_data->part_map_entry_count
+			/ mac_disk_data->ghost_size, 65536)
 		- mac_disk_data->free_part_entry_count + 1;
 }
 
-- 
2.43.0


From 7b6606a3663a26a5073773a375f30eee28b3a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 28/96] fix: sun: no assertion or overflow on cylinder counts
 read from the disk

---
 libparted/labels/sun.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 19dd4b5..336fc51 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -175,7 +175,7 @@ sun_alloc (const PedDevice* dev)
 	SunRawLabel*	label;
 	SunDiskData*	sun_specific;
 	const PedCHSGeometry*	bios_geom = &dev->bios_geom;
-	PedSector	cyl_size = bios_geom->sectors * bios_geom->heads;
+	PedSector	cyl_size = (PedSector) bios_geom->sectors * bios_geom->heads;
 	PED_ASSERT (cyl_size != 0);
 
         disk = _ped_disk_alloc (dev, &sun_disk_type);
@@ -187,7 +187,6 @@ sun_alloc (const PedDevice* dev)
 		goto error_free_disk;
 	sun_specific = (SunDiskData*) disk->disk_specific;
 
-	PED_ASSERT (bios_geom->cylinders == (PedSector) (dev->length / cyl_size));
 	sun_specific->length = ped_round_down_to (dev->length, cyl_size);
 
 	label = &sun_specific->raw_label;
@@ -291,7 +290,7 @@ _check_geometry_sanity (PedDisk* disk, SunRawLabel* label)
 		dev->bios_geom.heads = PED_BE16_TO_CPU(label->ntrks);
 		dev->bios_geom.cylinders = PED_BE16_TO_CPU(label->pcylcount);
 
-		if (dev->bios_geom.sectors * dev->bios_geom.heads
+		if ((PedSector) dev->bios_geom.sectors * dev->bios_geom.heads
 			      	* dev->bios_geom.cylinders > dev->length) {
 			if (ped_exception_throw (
 				PED_EXCEPTION_WARNING,
@@ -335,7 +334,8 @@ sun_read (PedDisk* disk)
 	if (!_check_geometry_sanity (disk, label))
 		goto error;
 
-	block = disk->dev->bios_geom.sectors * disk->dev->bios_geom.heads;
+	block = (PedSector) disk->dev->bios_geom.sectors
+		* disk->dev->bios_geom.heads;
 	disk_data->length = block * disk->dev->bios_geom.cylinders;
 
 	for (i = 0; i < SUN_DISK_MAXPARTITIONS; i++) {
@@ -346,6 +346,18 @@ sun_read (PedDisk* disk)
 		if (label->infos[i].id == WHOLE_DISK_ID)
 	       		continue;
 
+		/* Such sector numbers do not fit in a PedSector.  */
+		if (PED_BE32_TO_CPU(label->partitions[i].start_cylinder)
+		    > (INT64_MAX - UINT32_MAX) / block) {
+#ifndef DISCOVER_ONLY
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("Can't have a partition outside the disk!"));
+#endif
+			goto error;
+		}
+
 		start = PED_BE32_TO_CPU(label->partitions[i].start_cylinder)
 				    * block;
 		end = start
@@ -454,7 +466,7 @@ sun_write (const PedDisk* disk)
 		label->infos[i].id = sun_data->type;
 		label->partitions[i].start_cylinder
 			= PED_CPU_TO_BE32 (part->geom.start
-				/ (disk->dev->bios_geom.sectors
+				/ ((PedSector) disk->dev->bios_geom.sectors
 				       	* disk->dev->bios_geom.heads));
 		label->partitions[i].num_sectors
 			= PED_CPU_TO_BE32 (part->geom.end
@@ -728,7 +740,8 @@ _get_strict_constraint (PedDisk* disk)
         PedAlignment    end_align;
         PedGeometry     max_geom;
 	SunDiskData*	disk_data = disk->disk_specific;
-	PedSector	block = dev->bios_geom.sectors * dev->bios_geom.heads;
+	PedSector	block = (PedSector) dev->bios_geom.sectors
+		* dev->bios_geom.heads;
 
         if (!ped_alignment_init (&start_align, 0, block))
                 return NULL;
@@ -748,7 +761,8 @@ _get_lax_constraint (PedDisk* disk)
         PedAlignment    start_align;
         PedGeometry     max_geom;
 	SunDiskData*	disk_data = disk->disk_specific;
-	PedSector	block = dev->bios_geom.sectors * dev->bios_geom.heads;
+	PedSector	block = (PedSector) dev->bios_geom.sectors
+		* dev->bios_geom.heads;
 
         if (!ped_alignment_init (&start_align, 0, block))
                 return NULL;
-- 
2.43.0


From 2a3b15f5aa919287ff59061a264b9acbcc10b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 29/96] fix: gpt: refuse unusable header and entry values,
 never place a backup in the usable area

---
 libparted/labels/gpt.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 877ce7c..c095c93 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -720,6 +720,13 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
             && pe_size <= (UINT32_MAX >> 4)))
     return 0;
 
+  /* There must be between 1 and 8192 entries, and their total size
+     must fit in 32 bits.  */
+  uint32_t n_entries = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  if (n_entries == 0 || n_entries > 8192
+      || n_entries > UINT32_MAX / pe_size)
+    return 0;
+
   if (PED_LE64_TO_CPU (gpt->MyLBA) != my_lba)
     return 0;
 
@@ -863,10 +870,18 @@ _parse_part_entry (PedDisk *disk, GuidPartitionEntry_t *pte)
   PedPartition *part;
   GPTPartitionData *gpt_part_data;
   unsigned int i;
+  uint64_t start = PED_LE64_TO_CPU (pte->StartingLBA);
+  uint64_t end = PED_LE64_TO_CPU (pte->EndingLBA);
+
+  /* Such sector numbers do not fit in a PedSector.  */
+  if (start >= INT64_MAX || end >= INT64_MAX)
+    {
+      ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                           _("Can't have a partition outside the disk!"));
+      return NULL;
+    }
 
-  part = ped_partition_new (disk, PED_PARTITION_NORMAL, NULL,
-                            PED_LE64_TO_CPU (pte->StartingLBA),
-                            PED_LE64_TO_CPU (pte->EndingLBA));
+  part = ped_partition_new (disk, PED_PARTITION_NORMAL, NULL, start, end);
   if (!part)
     return NULL;
 
@@ -1061,6 +1076,13 @@ gpt_read (PedDisk *disk)
         goto error_free_gpt;
 
       gpt = primary_gpt;
+
+      /* Nothing says that there is room for a backup where the header
+         has it: do not write one to the usable area or off the disk.  */
+      if (gpt_disk_data->AlternateLBA >= disk->dev->length
+          || (gpt_disk_data->AlternateLBA - _ptes_sectors (disk, gpt)
+              <= (PedSector) PED_LE64_TO_CPU (gpt->LastUsableLBA)))
+        gpt_disk_data->AlternateLBA = disk->dev->length - 1;
     }
   else /* !primary_gpt && backup_gpt */
     {
-- 
2.43.0


From 7e1f1be09b354430eb1161e3fc4ca86363adc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 30/96] fix: geometry: refuse regions whose end overflows

---
 libparted/cs/geom.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 99280ac..f2a9f07 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -164,6 +164,13 @@ ped_geometry_set (PedGeometry* geom, PedSector start, PedSector length)
                           " (start sector=%jd length=%jd)"), start, length);
 		return 0;
 	}
+	if (length > INT64_MAX - start) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Can't have a partition outside the disk!"));
+		return 0;
+	}
 
 	geom->start = start;
 	geom->length = length;
-- 
2.43.0


From 3d9f1080aa025a138a4da7eac2becfbf2ebd0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 31/96] fix: constraints: fail instead of keeping a NULL range

---
 libparted/cs/constraint.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index c9693f6..9e269f8 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -78,6 +78,14 @@ ped_constraint_init (
 	constraint->min_size = min_size;
 	constraint->max_size = max_size;
 
+	/* A range that does not lie within its device can't be duplicated. */
+	if (!constraint->start_range || !constraint->end_range) {
+		ped_alignment_destroy (constraint->start_align);
+		ped_alignment_destroy (constraint->end_align);
+		free (constraint->start_range);
+		free (constraint->end_range);
+		return 0;
+	}
 	return 1;
 }
 
-- 
2.43.0


From 96e0d58748fba5da1d8b35ef46236821a93d72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 32/96] fix: probing: skip regions whose byte offsets overflow

---
 libparted/filesys.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libparted/filesys.c b/libparted/filesys.c
index f67a4e8..f3f18ab 100644
--- a/libparted/filesys.c
+++ b/libparted/filesys.c
@@ -199,6 +199,10 @@ ped_file_system_probe_specific (
 	PED_ASSERT (fs_type->ops->probe != NULL);
 	PED_ASSERT (geom != NULL);
 
+	/* The probes compute byte offsets within the region.  */
+	if (geom->end >= INT64_MAX / geom->dev->sector_size)
+		return NULL;
+
 	if (!ped_device_open (geom->dev))
 		return 0;
 	result = fs_type->ops->probe (geom);
@@ -206,7 +210,7 @@ ped_file_system_probe_specific (
 	return result;
 }
 
-static int
+static PedSector
 _geometry_error (const PedGeometry* a, const PedGeometry* b)
 {
 	PedSector	start_delta = a->start - b->start;
@@ -217,7 +221,7 @@ _geometry_error (const PedGeometry* a, const PedGeometry* b)
 
 static PedFileSystemType*
 _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
-	     const int detected_error [], int detected_count)
+	     const PedSector detected_error [], int detected_count)
 {
 	int		best_match = 0;
 	int		i;
@@ -237,7 +241,7 @@ _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
 		if (i == best_match)
 			continue;
 
-		if (abs (detected_error [best_match] - detected_error [i])
+		if (llabs (detected_error [best_match] - detected_error [i])
 				< min_error)
 			return NULL;
 	}
@@ -258,7 +262,7 @@ PedFileSystemType*
 ped_file_system_probe (PedGeometry* geom)
 {
 	PedFileSystemType*	detected[32];
-	int			detected_error[32];
+	PedSector		detected_error[32];
 	int			detected_count = 0;
 	PedFileSystemType*	walk = NULL;
 
-- 
2.43.0


From 6b82023c3e7747e05ef77ee1b50b032ad87a72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 33/96] fix: jfs: no overflow on hostile block counts

---
 libparted/fs/jfs/jfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/fs/jfs/jfs.c b/libparted/fs/jfs/jfs.c
index f00bd9f..8474675 100644
--- a/libparted/fs/jfs/jfs.c
+++ b/libparted/fs/jfs/jfs.c
@@ -48,6 +48,9 @@ jfs_probe (PedGeometry* geom)
 	if (strncmp (sb->s_magic, JFS_MAGIC, 4) == 0) {
 		PedSector block_size = PED_LE32_TO_CPU (sb->s_pbsize);
 		PedSector block_count = PED_LE64_TO_CPU (sb->s_size);
+		if (block_count < 0
+		    || (block_size && block_count > INT64_MAX / block_size))
+			return NULL;
 		/* apparently jfs is retarded and always claims 512 byte
 		   sectors, with the block count as a multiple of that */
 		return ped_geometry_new (geom->dev, geom->start,
-- 
2.43.0


From ce91d9d5c12489ff87528d705c48e4bf9c63818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 34/96] fix: xfs: no overflow on hostile block counts

---
 libparted/fs/xfs/xfs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libparted/fs/xfs/xfs.c b/libparted/fs/xfs/xfs.c
index f5cf96a..46f64c9 100644
--- a/libparted/fs/xfs/xfs.c
+++ b/libparted/fs/xfs/xfs.c
@@ -48,6 +48,9 @@ xfs_probe (PedGeometry* geom)
 	if (PED_LE32_TO_CPU (sb->sb_magicnum) == XFS_SB_MAGIC) {
 		block_size = PED_LE32_TO_CPU (sb->sb_blocksize) / geom->dev->sector_size;
 		block_count = PED_LE64_TO_CPU (sb->sb_dblocks);
+		if (block_count < 0
+		    || (block_size && block_count > INT64_MAX / block_size))
+			return NULL;
 
 		return ped_geometry_new (geom->dev, geom->start,
 					 block_size * block_count);
@@ -56,6 +59,9 @@ xfs_probe (PedGeometry* geom)
 	if (PED_BE32_TO_CPU (sb->sb_magicnum) == XFS_SB_MAGIC) {
 		block_size = PED_BE32_TO_CPU (sb->sb_blocksize) / geom->dev->sector_size;
 		block_count = PED_BE64_TO_CPU (sb->sb_dblocks);
+		if (block_count < 0
+		    || (block_size && block_count > INT64_MAX / block_size))
+			return NULL;
 
 		geom = ped_geometry_new (geom->dev, geom->start,
 					 block_size * block_count);
-- 
2.43.0


From 738d1e23c60aaa87b1c8323bf70f0dd0308ce8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 35/96] fix: msdos: bound chains of logical partitions, refuse
 ones without room for their table

---
 libparted/labels/dos.c | 84 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 13 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 9b672f3..5ac3bf4 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1166,8 +1166,14 @@ raw_part_parse (const PedDisk* disk, const DosRawPartition* raw_part,
 	return part;
 }
 
+/* More tables than any chain of logical partitions needs.  */
+#define MAX_TABLES (16 * MAX_TOTAL_PART)
+
+/* *N_TABLES counts the tables read so far: tables may refer to each other
+   in a loop.  */
 static int
-read_table (PedDisk* disk, PedSector sector, int is_extended_table)
+read_table (PedDisk* disk, PedSector sector, int is_extended_table,
+	    int *n_tables)
 {
 	int			i;
 	DosRawTable*		table;
@@ -1180,6 +1186,14 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 	PED_ASSERT (disk->dev != NULL);
 
 	void *label = NULL;
+	if (++*n_tables > MAX_TABLES) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("Invalid partition table - recursive "
+			"partition on %s."),
+			disk->dev->path);
+		goto error;
+	}
 	if (!ptt_read_sector (disk->dev, sector, &label))
 		goto error;
 
@@ -1254,7 +1268,7 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 
 		/* non-nested extended partition */
 		if (part->type == PED_PARTITION_EXTENDED) {
-			if (!read_table (disk, part->geom.start, 1))
+			if (!read_table (disk, part->geom.start, 1, n_tables))
 				goto error;
 		}
 	}
@@ -1277,7 +1291,7 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 				 */
 				continue;
 			}
-			if (!read_table (disk, part_start, 1))
+			if (!read_table (disk, part_start, 1, n_tables))
 				goto error;
 		}
 	}
@@ -1292,15 +1306,46 @@ error:
 	return 0;
 }
 
+/* All logical partitions but the first need a sector for their table right
+   before them: that is where it is written.  */
+static int
+check_logical_tables (const PedDisk* disk)
+{
+	const PedPartition* ext_part = ped_disk_extended_partition (disk);
+	int i;
+
+	for (i = 6; ext_part; i++) {
+		const PedPartition* part = ped_disk_get_partition (disk, i);
+		if (!part)
+			break;
+		if (!part->prev || !(part->prev->type & PED_PARTITION_METADATA)
+		    || part->prev->geom.end != part->geom.start - 1) {
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+				_("There is no room for the partition table of "
+				  "logical partition %d on %s."),
+				i, disk->dev->path);
+			return 0;
+		}
+	}
+	return 1;
+}
+
 static int
 msdos_read (PedDisk* disk)
 {
+	int n_tables = 0;
+
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
 
 	ped_disk_delete_all (disk);
-	if (!read_table (disk, 0, 0))
+	if (!read_table (disk, 0, 0, &n_tables))
+		return 0;
+	if (!check_logical_tables (disk)) {
+		ped_disk_delete_all (disk);
 		return 0;
+	}
 
 #ifndef DISCOVER_ONLY
 	/* try to figure out the correct BIOS CHS values */
@@ -1804,6 +1849,8 @@ _try_constraint (const PedPartition* part, const PedConstraint* external,
 	PedConstraint*		intersection;
 	PedGeometry*		solution;
 
+	if (!internal)
+		return NULL;
 	intersection = ped_constraint_intersect (external, internal);
 	ped_constraint_destroy (internal);
 	if (!intersection)
@@ -2159,8 +2206,9 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	if (min_start > max_end)
 		return NULL;
 
-	ped_geometry_init (&safe_space, part->disk->dev,
-			   min_start, max_end - min_start + 1);
+	if (!ped_geometry_init (&safe_space, part->disk->dev,
+				min_start, max_end - min_start + 1))
+		return NULL;
 	return ped_constraint_new_from_max (&safe_space);
 }
 
@@ -2179,6 +2227,8 @@ _align_logical (PedPartition* part, const PedCHSGeometry* bios_geom,
 	PED_ASSERT (ext_part != NULL);
 
 	log_meta_overlap = _log_meta_overlap_constraint(part, &part->geom);
+	if (!log_meta_overlap)
+		return 0;
 	intersect = ped_constraint_intersect (constraint, log_meta_overlap);
 	ped_constraint_destroy (log_meta_overlap);
 	if (!intersect)
@@ -2231,7 +2281,8 @@ _no_geom_constraint (const PedDisk* disk, PedSector start, PedSector end)
 {
 	PedGeometry	 max;
 
-	ped_geometry_init (&max, disk->dev, start, end - start + 1);
+	if (!ped_geometry_init (&max, disk->dev, start, end - start + 1))
+		return NULL;
 	return ped_constraint_new_from_max (&max);
 }
 
@@ -2243,16 +2294,20 @@ _no_geom_extended_constraint (const PedPartition* part)
 	PedGeometry	start_range;
 	PedGeometry	end_range;
 	PedConstraint*	constraint;
+	int		ok;
 
 	if (min) {
-		ped_geometry_init (&start_range, dev, 1, min->start);
-		ped_geometry_init (&end_range, dev, min->end,
-				   dev->length - min->end);
+		ok = ped_geometry_init (&start_range, dev, 1, min->start)
+		     && ped_geometry_init (&end_range, dev, min->end,
+					   dev->length - min->end);
 		ped_geometry_destroy (min);
 	} else {
-		ped_geometry_init (&start_range, dev, 1, dev->length - 1);
-		ped_geometry_init (&end_range, dev, 1, dev->length - 1);
+		ok = ped_geometry_init (&start_range, dev, 1, dev->length - 1)
+		     && ped_geometry_init (&end_range, dev, 1,
+					   dev->length - 1);
 	}
+	if (!ok)
+		return NULL;
 	constraint = ped_constraint_new (ped_alignment_any, ped_alignment_any,
 			&start_range, &end_range, 1, dev->length);
 	return constraint;
@@ -2417,7 +2472,10 @@ add_logical_part_metadata (PedDisk* disk, const PedPartition* log_part)
 	if (log_part->num == 5 && metadata_length < bios_geom.sectors)
 		return 1;
 
-	PED_ASSERT (metadata_length > 0);
+	/* A table read from a disk may have no room for it: msdos_read
+	   refuses such tables.  */
+	if (metadata_length <= 0)
+		return 1;
 
 	return add_metadata_part (disk, PED_PARTITION_LOGICAL,
 				  metadata_start, metadata_end);
-- 
2.43.0


From 7eced022f0e757a85867f7c00c75d7cc7cbf3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 36/96] fix: atari: refuse a device without room for the bad
 sectors list

---
 libparted/labels/atari.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 2a43926..100f933 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -458,8 +458,20 @@ atari_alloc (const PedDevice* dev)
 
 	PED_ASSERT (dev != NULL);
 
-	if (!atr_can_use_dev (dev)
-	    || !(disk = _ped_disk_alloc (dev, &atari_disk_type)))
+	if (!atr_can_use_dev (dev))
+		return NULL;
+
+	/* A new label has a root sector and a bad sectors list. */
+	if (dev->length < 2) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The device is too small for an Atari partition "
+			  "table."));
+		return NULL;
+	}
+
+	if (!(disk = _ped_disk_alloc (dev, &atari_disk_type)))
 		return NULL;
 
 	if (!(disk->disk_specific = atr_disk = ped_malloc (sizeof (AtariDisk))))
@@ -1009,7 +1021,8 @@ atr_empty_init_bsl (const PedDisk* disk)
 				sec );
 			return 0;
 		}
-		ped_device_write (disk->dev, zeros, sec, 1);
+		if (!ped_device_write (disk->dev, zeros, sec, 1))
+			return 0;
 	}
 	atr_disk->HDX_comp = 0;
 	return 1;
-- 
2.43.0


From 94c8a9bda4088439282df9db716bad80e6db7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 37/96] fix: clobber all sectors an Amiga RDB may be in

---
 libparted/disk.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 05ec46d..e73cfd0 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -332,9 +332,10 @@ ped_disk_clobber (PedDevice* dev)
 	   the final sector.  */
 	const PedSector n_sectors = 9 * 1024 / dev->sector_size + 1;
 
-	/* Clear the first few.  */
-	PedSector n = n_sectors;
-	if (dev->length < first_sector + n_sectors)
+	/* Clear the first few, which must include all of the 16 sectors
+	   an Amiga RDB may be in.  */
+	PedSector n = PED_MAX (n_sectors, 16);
+	if (dev->length < first_sector + n)
 	  n = dev->length - first_sector;
         if (!ptt_clear_sectors (dev, first_sector, n))
           goto error_close_dev;
-- 
2.43.0


From 718792f0fd21e91b11874a380a82c86045813598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 38/96] fix: bound block size and backup lookups of a hostile
 ext2 super block

---
 libparted/fs/ext2/interface.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/libparted/fs/ext2/interface.c b/libparted/fs/ext2/interface.c
index 5f64ab3..5ef377c 100644
--- a/libparted/fs/ext2/interface.c
+++ b/libparted/fs/ext2/interface.c
@@ -31,8 +31,10 @@ static PedFileSystemType _ext3_type;
 
 struct ext2_dev_handle* ext2_make_dev_handle_from_parted_geometry(PedGeometry* geom);
 
+/* is_backup is non-zero if geom is where a backup of the super block says
+   that the file system starts.  */
 static PedGeometry*
-_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
+_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver, int is_backup)
 {
 	struct ext2_super_block *sb;
 	const int sectors = (4096 + geom->dev->sector_size - 1) /
@@ -42,7 +44,9 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 		return NULL;
 	sb = (struct ext2_super_block *)(buf+1024);
 
-	if (EXT2_SUPER_MAGIC(*sb) == EXT2_SUPER_MAGIC_CONST) {
+	/* no block size is larger than 64 KiB */
+	if (EXT2_SUPER_MAGIC(*sb) == EXT2_SUPER_MAGIC_CONST
+	    && EXT2_SUPER_LOG_BLOCK_SIZE(*sb) <= 6) {
 		PedSector block_size = (EXT2_MIN_BLOCK_SIZE << (EXT2_SUPER_LOG_BLOCK_SIZE(*sb))) / geom->dev->sector_size;
 		PedSector block_count = EXT2_SUPER_BLOCKS_COUNT(*sb);
 		PedSector group_blocks = EXT2_SUPER_BLOCKS_PER_GROUP(*sb);
@@ -82,12 +86,16 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 					- group_blocks * group_nr
 					- first_data_block;
 
-			if (start < 0)
+			/* The primary super block belongs to group 0, and it
+			   comes before its backups.  */
+			if (is_backup || start < 0 || start >= geom->start)
+				return NULL;
+			if (!ped_geometry_init (&probe_geom, geom->dev,
+						start,
+						block_count * block_size))
 				return NULL;
-			ped_geometry_init (&probe_geom, geom->dev,
-					   start, block_count * block_size);
 			return _ext2_generic_probe (&probe_geom,
-                                                    expect_ext_ver);
+						    expect_ext_ver, 1);
 		} else {
 			return ped_geometry_new (geom->dev, geom->start,
 						 block_count * block_size);
@@ -100,19 +108,19 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 static PedGeometry*
 _ext2_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 2);
+	return _ext2_generic_probe (geom, 2, 0);
 }
 
 static PedGeometry*
 _ext3_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 3);
+	return _ext2_generic_probe (geom, 3, 0);
 }
 
 static PedGeometry*
 _ext4_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 4);
+	return _ext2_generic_probe (geom, 4, 0);
 }
 
 static PedFileSystemOps _ext2_ops = {
-- 
2.43.0


From b22d5e8b6bdb2a015ca2e7a3d15fad722a16f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 39/96] fix: refuse FAT boot sectors, chains and trees that
 make no sense

---
 libparted/fs/r/fat/bootsector.c | 13 +++++++++++++
 libparted/fs/r/fat/count.c      |  8 +++++---
 libparted/fs/r/fat/fat.c        | 14 +++++++++++---
 libparted/fs/r/fat/traverse.c   |  8 ++++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/libparted/fs/r/fat/bootsector.c b/libparted/fs/r/fat/bootsector.c
index 85ccc0f..8c34e2f 100644
--- a/libparted/fs/r/fat/bootsector.c
+++ b/libparted/fs/r/fat/bootsector.c
@@ -252,6 +252,19 @@ fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs)
 			  + fs_info->fat_sectors * fs_info->fat_table_count;
 	}
 
+	/* The FATs must lie within the file system and within the partition,
+	   and FAT32 has 28 bit cluster numbers.  */
+	if (fs_info->fat_sectors < 1
+	    || fs_info->fat_sectors > ((PedSector) 4 << 28) / 512
+	    || fs_info->cluster_offset + fs_info->cluster_sectors
+			> fs_info->sector_count
+	    || fs_info->cluster_offset > fs->geom->length) {
+		ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The FAT boot sector describes tables that do not "
+			  "fit in the file system."));
+		return 0;
+	}
+
 	fs_info->cluster_count
 		= (fs_info->sector_count - fs_info->cluster_offset)
 		  / fs_info->cluster_sectors;
diff --git a/libparted/fs/r/fat/count.c b/libparted/fs/r/fat/count.c
index e23404b..8a4efbc 100644
--- a/libparted/fs/r/fat/count.c
+++ b/libparted/fs/r/fat/count.c
@@ -86,6 +86,7 @@ flag_traverse_fat (PedFileSystem* fs, const char* chain_name, FatCluster start,
 			chain_name)
 				!= PED_EXCEPTION_IGNORE)
 			return 0;
+		return 1;
 	}
 
 	for (prev_clst = clst = start; !fat_table_is_eof (fs_info->fat, clst);
@@ -157,7 +158,7 @@ flag_traverse_fat (PedFileSystem* fs, const char* chain_name, FatCluster start,
 */
 static int
 flag_traverse_dir (FatTraverseInfo* trav_info) {
-	PedFileSystem*		fs = trav_info->fs;
+	PedFileSystem*		fs;
 	FatDirEntry*		this_entry;
 	FatTraverseInfo*	subdir_trav_info;
 	char			file_name [4096];
@@ -167,6 +168,7 @@ flag_traverse_dir (FatTraverseInfo* trav_info) {
 
 	PED_ASSERT (trav_info != NULL);
 
+	fs = trav_info->fs;
 	strcpy (file_name, trav_info->dir_name);
 	file_name_start = file_name + strlen (file_name);
 
@@ -240,14 +242,14 @@ fat_collect_cluster_info (PedFileSystem* fs) {
 	if (fs_info->fat_type == FAT_TYPE_FAT32) {
 		trav_info = fat_traverse_begin (fs, fs_info->root_cluster,
 						"\\");
-		if (!flag_traverse_dir (trav_info))
+		if (!trav_info || !flag_traverse_dir (trav_info))
 			return 0;
 		if (!flag_traverse_fat (fs, "\\", fs_info->root_cluster,
                                         FAT_FLAG_DIRECTORY, 0))
 			return 0;
 	} else {
 		trav_info = fat_traverse_begin (fs, FAT_ROOT, "\\");
-		if (!flag_traverse_dir (trav_info))
+		if (!trav_info || !flag_traverse_dir (trav_info))
 			return 0;
 	}
 
diff --git a/libparted/fs/r/fat/fat.c b/libparted/fs/r/fat/fat.c
index 6583b5b..53d2145 100644
--- a/libparted/fs/r/fat/fat.c
+++ b/libparted/fs/r/fat/fat.c
@@ -36,9 +36,7 @@ fat_alloc (const PedGeometry* geom)
 	fs->type_specific = (FatSpecific*) ped_malloc (sizeof (FatSpecific));
 	if (!fs->type_specific)
 		goto error_free_fs;
-	FatSpecific* fs_info = (FatSpecific*) fs->type_specific;
-	fs_info->boot_sector = NULL;
-	fs_info->info_sector = NULL;
+	memset (fs->type_specific, 0, sizeof (FatSpecific));
 	fs->geom = ped_geometry_duplicate (geom);
 	if (!fs->geom)
 		goto error_free_type_specific;
@@ -164,6 +162,16 @@ fat_open (PedGeometry* geom)
 	PedFileSystem*		fs;
 	FatSpecific*		fs_info;
 
+	/* all of this code counts in sectors of 512 bytes */
+	if (geom->dev->sector_size != PED_SECTOR_SIZE_DEFAULT) {
+		ped_exception_throw (PED_EXCEPTION_NO_FEATURE,
+			PED_EXCEPTION_CANCEL,
+			_("Parted can't resize FAT file systems on disks "
+			  "with a sector size not equal to %d bytes."),
+			(int) PED_SECTOR_SIZE_DEFAULT);
+		goto error;
+	}
+
 	fs = fat_alloc (geom);
 	if (!fs)
 		goto error;
diff --git a/libparted/fs/r/fat/traverse.c b/libparted/fs/r/fat/traverse.c
index 42eeff9..506223f 100644
--- a/libparted/fs/r/fat/traverse.c
+++ b/libparted/fs/r/fat/traverse.c
@@ -191,6 +191,14 @@ fat_traverse_complete (FatTraverseInfo* trav_info)
 FatTraverseInfo*
 fat_traverse_directory (FatTraverseInfo *trav_info, FatDirEntry* parent)
 {
+	/* This also bounds the depth of the recursion that walks the tree.  */
+	if (strlen (trav_info->dir_name) > sizeof (tmp_buffer) / 2) {
+		ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The directories of the file system are nested too "
+			  "deeply."));
+		return NULL;
+	}
+
 	strcpy (tmp_buffer, trav_info->dir_name);
 	fat_dir_entry_get_name (parent,
 				tmp_buffer + strlen (trav_info->dir_name));
-- 
2.43.0


From 84c1b9b3ccc5f2819ff9396793b51e1742ce3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 40/96] fix: keep damaged HFS and HFS+ B-trees from crashing or
 trapping the reader

---
 libparted/fs/r/hfs/advfs.c      | 38 ++++++++++++++++++++-------
 libparted/fs/r/hfs/advfs_plus.c | 46 +++++++++++++++++++++++++--------
 libparted/fs/r/hfs/file.c       |  7 ++++-
 libparted/fs/r/hfs/file_plus.c  |  7 ++++-
 libparted/fs/r/hfs/hfs.c        | 28 ++++++++++++++++++++
 libparted/fs/r/hfs/hfs.h        |  2 ++
 6 files changed, 106 insertions(+), 22 deletions(-)

diff --git a/libparted/fs/r/hfs/advfs.c b/libparted/fs/r/hfs/advfs.c
index cb66e9e..701bbca 100644
--- a/libparted/fs/r/hfs/advfs.c
+++ b/libparted/fs/r/hfs/advfs.c
@@ -86,6 +86,7 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 	HfsNodeDescriptor*	desc = (HfsNodeDescriptor*) node;
 	HfsPrivateGenericKey*	record_key = NULL;
 	unsigned int		node_number, record_number;
+	unsigned int		level = 0;
 	int			i;
 	uint16_t		record_pos;
 
@@ -94,6 +95,9 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 		return 0;
 	uint16_t offset;
 	memcpy(&offset, node+(PED_SECTOR_SIZE_DEFAULT-2), sizeof(uint16_t));
+	if (PED_BE16_TO_CPU(offset)
+	    > PED_SECTOR_SIZE_DEFAULT - sizeof (HfsHeaderRecord))
+		goto error;
 	header = (HfsHeaderRecord*) (node + PED_BE16_TO_CPU(offset));
 
 	/* Get the node number of the root */
@@ -108,6 +112,8 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 	/* Follow the white rabbit */
 	while (1) {
 		record_number = PED_BE16_TO_CPU (desc->rec_nb);
+		if (record_number >= PED_SECTOR_SIZE_DEFAULT / 2)
+			goto error;
 		for (i = record_number; i; i--) {
 			uint16_t value;
 			memcpy(&value, node+(PED_SECTOR_SIZE_DEFAULT - (2*i)), sizeof(uint16_t));
@@ -115,14 +121,10 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 			record_key = (HfsPrivateGenericKey*) (node + record_pos);
 			/* check for obvious error in FS */
 			if ((record_pos< HFS_FIRST_REC)
-			    || (record_pos>= PED_SECTOR_SIZE_DEFAULT
-				   - 2 * (signed)(record_number+1))) {
-				ped_exception_throw (
-					PED_EXCEPTION_ERROR,
-					PED_EXCEPTION_CANCEL,
-					_("The file system contains errors."));
-				return 0;
-			}
+			    || (record_pos + (signed) sizeof (HfsExtentKey)
+				> PED_SECTOR_SIZE_DEFAULT
+				   - 2 * (signed)(record_number+1)))
+				goto error;
 			if (hfs_extent_key_cmp(record_key, key) <= 0)
 				break;
 		}
@@ -131,6 +133,12 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 			unsigned int 	skip;
 
 			skip = (1 + record_key->key_length + 1) & ~1;
+			if (record_pos + skip + sizeof (uint32_t)
+			    > PED_SECTOR_SIZE_DEFAULT)
+				goto error;
+			/* a loop of nodes must not trap us */
+			if (++level > HFS_MAX_BTREE_DEPTH)
+				goto error;
 			uint32_t value;
 			memcpy(&value, node+record_pos+skip, sizeof(uint32_t));
 			node_number = PED_BE32_TO_CPU(value);
@@ -142,8 +150,11 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 	}
 
 	/* copy the result if needed */
-	if (record_size)
+	if (record_size) {
+		if (record_pos + record_size > PED_SECTOR_SIZE_DEFAULT)
+			goto error;
 		memcpy (record_out, record_key, record_size);
+	}
 
 	/* send record reference if needed */
 	if (record_ref) {
@@ -155,6 +166,11 @@ hfs_btree_search (HfsPrivateFile* b_tree_file, HfsPrivateGenericKey* key,
 
 	/* success */
 	return 1;
+
+error:
+	ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			     _("The file system contains errors."));
+	return 0;
 }
 
 /* free the bad blocks linked list */
@@ -211,6 +227,10 @@ hfs_read_bad_blocks (const PedFileSystem *fs)
 		}
 		if (PED_BE16_TO_CPU (ret_key->start) == last_start)
 		    break;
+		/* the extents are looked for in ascending order */
+		if (!first_pass
+		    && PED_BE16_TO_CPU (ret_key->start) < last_start)
+			goto errbb;
 
 		last_start = PED_BE16_TO_CPU (ret_key->start);
 		for (i = 0; i < HFS_EXT_NB; i++) {
diff --git a/libparted/fs/r/hfs/advfs_plus.c b/libparted/fs/r/hfs/advfs_plus.c
index 6104460..cd3acf0 100644
--- a/libparted/fs/r/hfs/advfs_plus.c
+++ b/libparted/fs/r/hfs/advfs_plus.c
@@ -79,6 +79,7 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 	HfsPHeaderRecord*	header;
 	HfsPPrivateGenericKey*	record_key = NULL;
 	unsigned int		node_number, record_number, size, bsize;
+	unsigned int		level = 0;
 	int			i;
 	uint16_t		record_pos;
 
@@ -94,6 +95,12 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 
 	/* Get the size of a node in sectors and allocate buffer */
 	size = (bsize = PED_BE16_TO_CPU (header->node_size)) / PED_SECTOR_SIZE_DEFAULT;
+	if (bsize < PED_SECTOR_SIZE_DEFAULT
+	    || bsize % PED_SECTOR_SIZE_DEFAULT != 0) {
+		ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+				     _("The file system contains errors."));
+		return 0;
+	}
 	node = ped_malloc (bsize);
 	if (!node)
 		return 0;
@@ -101,12 +108,16 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 
 	/* Read the root node */
 	if (!hfsplus_file_read (b_tree_file, node,
-				(PedSector) node_number * size, size))
+				(PedSector) node_number * size, size)) {
+		free (node);
 		return 0;
+	}
 
 	/* Follow the white rabbit */
 	while (1) {
 		record_number = PED_BE16_TO_CPU (desc->rec_nb);
+		if (record_number >= bsize / 2)
+			goto error;
 		for (i = record_number; i; i--) {
 			uint16_t value;
 			memcpy(&value, node+(bsize - (2*i)), sizeof(uint16_t));
@@ -114,15 +125,10 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 			record_key = (HfsPPrivateGenericKey*) (node + record_pos);
 			/* check for obvious error in FS */
 			if ((record_pos < HFS_FIRST_REC)
-			    || (record_pos >= (signed)bsize
-				   - 2 * (signed)(record_number+1))) {
-				ped_exception_throw (
-					PED_EXCEPTION_ERROR,
-					PED_EXCEPTION_CANCEL,
-					_("The file system contains errors."));
-				free (node);
-				return 0;
-			}
+			    || (record_pos + (signed) sizeof (HfsPExtentKey)
+				> (signed)bsize
+				   - 2 * (signed)(record_number+1)))
+				goto error;
 			if (hfsplus_extent_key_cmp(record_key, key) <= 0)
 				break;
 		}
@@ -132,6 +138,11 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 
 			skip = ( 2 + PED_BE16_TO_CPU (record_key->key_length)
 			         + 1 ) & ~1;
+			if (record_pos + skip + sizeof (uint32_t) > bsize)
+				goto error;
+			/* a loop of nodes must not trap us */
+			if (++level > HFS_MAX_BTREE_DEPTH)
+				goto error;
 			uint32_t value;
 			memcpy(&value, node+record_pos+skip, sizeof(uint32_t));
 			node_number = PED_BE32_TO_CPU(value);
@@ -146,8 +157,11 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 	}
 
 	/* copy the result if needed */
-	if (record_size)
+	if (record_size) {
+		if (record_pos + record_size > bsize)
+			goto error;
 		memcpy (record_out, record_key, record_size);
+	}
 
 	/* send record reference if needed */
 	if (record_ref) {
@@ -160,6 +174,12 @@ hfsplus_btree_search (HfsPPrivateFile* b_tree_file, HfsPPrivateGenericKey* key,
 	/* success */
 	free (node);
 	return 1;
+
+error:
+	ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			     _("The file system contains errors."));
+	free (node);
+	return 0;
 }
 
 /* free the bad blocks linked list */
@@ -218,6 +238,10 @@ hfsplus_read_bad_blocks (const PedFileSystem *fs)
 		}
 		if (PED_BE32_TO_CPU (ret_key->start) == last_start)
 			break;
+		/* the extents are looked for in ascending order */
+		if (!first_pass
+		    && PED_BE32_TO_CPU (ret_key->start) < last_start)
+			goto errbbp;
 
 		last_start = PED_BE32_TO_CPU (ret_key->start);
 		for (i = 0; i < HFSP_EXT_NB; i++) {
diff --git a/libparted/fs/r/hfs/file.c b/libparted/fs/r/hfs/file.c
index 6024d84..59fd712 100644
--- a/libparted/fs/r/hfs/file.c
+++ b/libparted/fs/r/hfs/file.c
@@ -78,6 +78,10 @@ hfs_get_extent_containing (HfsPrivateFile* file, unsigned int block,
 	HfsPrivateFSData* 	priv_data = (HfsPrivateFSData*)
 					      file->fs->type_specific;
 
+	/* The extents file can't tell where its own extents are.  */
+	if (file == priv_data->extent_file)
+		return 0;
+
 	search.key_length = sizeof (HfsExtentKey) - 1;
 	search.type = HFS_DATA_FORK;
 	search.file_ID = file->CNID;
@@ -147,7 +151,8 @@ hfs_file_find_sector (HfsPrivateFile* file, PedSector sector)
 	}
 
 	/* in the three cached extent */
-	PED_ASSERT(file->start_cache && block >= file->start_cache);
+	if (!file->start_cache || block < file->start_cache)
+		return 0;
 	for (s = file->start_cache, i = 0; i < HFS_EXT_NB; i++) {
 		if ((block >= s) && (block < s + PED_BE16_TO_CPU (
 						file->cache[i].block_count))) {
diff --git a/libparted/fs/r/hfs/file_plus.c b/libparted/fs/r/hfs/file_plus.c
index aeff5ee..d675231 100644
--- a/libparted/fs/r/hfs/file_plus.c
+++ b/libparted/fs/r/hfs/file_plus.c
@@ -80,6 +80,10 @@ hfsplus_get_extent_containing (HfsPPrivateFile* file, unsigned int block,
 	HfsPPrivateFSData* 	priv_data = (HfsPPrivateFSData*)
 						file->fs->type_specific;
 
+	/* The extents file can't tell where its own extents are.  */
+	if (file == priv_data->extents_file)
+		return 0;
+
 	search.key_length = PED_CPU_TO_BE16 (sizeof (HfsPExtentKey) - 2);
 	search.type = HFS_DATA_FORK;
 	search.pad = 0;
@@ -161,7 +165,8 @@ hfsplus_file_find_extent (HfsPPrivateFile* file, PedSector sector,
 	}
 
 	/* ret == {0,0} */
-	PED_ASSERT(file->start_cache && block >= file->start_cache);
+	if (!file->start_cache || block < file->start_cache)
+		return ret;
 
 	for (s = file->start_cache, i = 0; i < HFSP_EXT_NB; i++) {
 		if ((block >= s) && (block < s + PED_BE32_TO_CPU (
diff --git a/libparted/fs/r/hfs/hfs.c b/libparted/fs/r/hfs/hfs.c
index 8959b47..16de321 100644
--- a/libparted/fs/r/hfs/hfs.c
+++ b/libparted/fs/r/hfs/hfs.c
@@ -57,6 +57,20 @@ static PedFileSystemType hfs_type;
 static PedFileSystemType hfsplus_type;
 
 
+/* Check the (big endian) size of the allocation blocks of a volume.  */
+static int
+hfsc_block_size_ok (uint32_t block_size)
+{
+	uint32_t	size = PED_BE32_TO_CPU (block_size);
+
+	if (size >= PED_SECTOR_SIZE_DEFAULT
+	    && size % PED_SECTOR_SIZE_DEFAULT == 0)
+		return 1;
+	ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			     _("The file system contains errors."));
+	return 0;
+}
+
 /* ----- HFS ----- */
 
 PedFileSystem *
@@ -74,6 +88,10 @@ hfs_open (PedGeometry* geom)
 	if (!ped_geometry_read (geom, buf, 2, 1))
 		return NULL;
 
+	/* Allocation blocks are made of sectors.  */
+	if (!hfsc_block_size_ok (((HfsMasterDirectoryBlock*) buf)->block_size))
+		return NULL;
+
 	/* Allocate memory */
 	fs = (PedFileSystem*) ped_malloc (sizeof (PedFileSystem));
 	if (!fs) goto ho;
@@ -436,6 +454,16 @@ hfsplus_open (PedGeometry* geom)
 			goto hpo_pg;
 	}
 
+	if (!hfsc_block_size_ok (vh->block_size))
+		goto hpo_pg;
+	/* The allocation file has one bit for each block.  */
+	if (PED_BE32_TO_CPU (vh->total_blocks)
+	    > PED_BE64_TO_CPU (vh->allocation_file.logical_size) * 8.0) {
+		ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+				     _("The file system contains errors."));
+		goto hpo_pg;
+	}
+
 	priv_data->jib_start_block = 0;
 	priv_data->jl_start_block = 0;
 	if (vh->attributes & PED_CPU_TO_BE32(1<<HFSP_JOURNALED)) {
diff --git a/libparted/fs/r/hfs/hfs.h b/libparted/fs/r/hfs/hfs.h
index 5b9138c..0fc05a8 100644
--- a/libparted/fs/r/hfs/hfs.h
+++ b/libparted/fs/r/hfs/hfs.h
@@ -64,6 +64,8 @@
 #define HFS_LEAF_NODE	0xFF
 
 #define HFS_FIRST_REC	0x0E
+/* more levels than any B-tree with 2^32 nodes can have */
+#define HFS_MAX_BTREE_DEPTH	32
 #define HFS_NSD_HD_REC	0x78
 #define HFS_MAP_REC	0xF8
 
-- 
2.43.0


From f53e9b0de1835d440d69a956d6e91ff6f6a4dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 41/96] fix: look for the alternate MDB of an HFS volume where
 it was read

---
 libparted/fs/hfs/probe.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libparted/fs/hfs/probe.c b/libparted/fs/hfs/probe.c
index d02ca28..3a7051e 100644
--- a/libparted/fs/hfs/probe.c
+++ b/libparted/fs/hfs/probe.c
@@ -90,6 +90,10 @@ hfs_and_wrapper_probe (PedGeometry* geom)
 	    || !(geom_ret = ped_geometry_new (geom->dev, geom->start, search + 2)))
 		return NULL;
 
+	/* the alternate MDB is read to the start of the buffer */
+	mdb = (HfsMasterDirectoryBlock *) buf;
+	if (max > geom->dev->length - geom->start)
+		max = geom->dev->length - geom->start;
 	for (; search < max; search++) {
 		if (!ped_geometry_set (geom_ret, geom_ret->start, search + 2)
 		    || !ped_geometry_read (geom_ret, buf, search, 1))
@@ -151,6 +155,8 @@ hfsplus_probe (PedGeometry* geom)
 						      search + 2)))
 			return NULL;
 
+		if (max > geom->dev->length - geom->start)
+			max = geom->dev->length - geom->start;
 		for (; search < max; search++) {
 			if (!ped_geometry_set (geom_ret, geom_ret->start,
 					       search + 2)
-- 
2.43.0


From 30a8649c5096f527fbf015213c83d1cee93f17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 42/96] fix: find the partition block of an Amiga file system,
 and check its block size

---
 libparted/fs/amiga/affs.c  |  9 ++++++---
 libparted/fs/amiga/amiga.c | 13 ++++++++++++-
 libparted/fs/amiga/amiga.h |  1 +
 libparted/fs/amiga/apfs.c  |  9 ++++++---
 libparted/fs/amiga/asfs.c  |  9 ++++++---
 5 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/libparted/fs/amiga/affs.c b/libparted/fs/amiga/affs.c
index 750eab2..95ef342 100644
--- a/libparted/fs/amiga/affs.c
+++ b/libparted/fs/amiga/affs.c
@@ -67,10 +67,11 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	if (amiga_find_part(geom, part) != NULL) {
 		reserved = PED_BE32_TO_CPU (part->de_Reserved);
 		reserved = reserved == 0 ? 1 : reserved;
-		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
-			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		blocksize = amiga_part_block_size (part);
 	}
 	free (part);
+	if (blocksize == 0)
+		return NULL;
 
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
@@ -90,8 +91,10 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	/* Find and test the root block */
 	len = geom->length / blocksize - reserved;
 	pos = (len - 1) / 2;
-	root = geom->start + (pos + reserved) * blocksize;
+	root = geom->start + (pos + reserved) * (PedSector) blocksize;
 
+	if (root < geom->start || root + blocksize - 1 > geom->end)
+		goto error;
 	if (!ped_device_read (geom->dev, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 9513f15..9da0591 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -329,7 +329,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		}
 
 		/* Current block is not a Partition Block */
-		if (part->pb_ID != IDNAME_PARTITION) {
+		if (PED_BE32_TO_CPU (part->pb_ID) != IDNAME_PARTITION) {
 			free (rdb);
 			return NULL;
 		}
@@ -350,3 +350,14 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 	free (rdb);
 	return NULL;
 }
+
+/* The size in sectors of the blocks of the file system in PART, or 0 if it
+   makes no sense.  */
+int _GL_ATTRIBUTE_PURE
+amiga_part_block_size (const struct PartitionBlock *part)
+{
+	uint64_t longs = (uint64_t) PED_BE32_TO_CPU (part->de_SizeBlock)
+		* PED_BE32_TO_CPU (part->de_SectorPerBlock);
+
+	return longs >= 128 && longs <= 128 * 64 ? longs / 128 : 0;
+}
diff --git a/libparted/fs/amiga/amiga.h b/libparted/fs/amiga/amiga.h
index 30f5b82..894a061 100644
--- a/libparted/fs/amiga/amiga.h
+++ b/libparted/fs/amiga/amiga.h
@@ -59,6 +59,7 @@ struct PartitionBlock {
 #define	PBFF_NOMOUNT	2L	/*   mounted, but space reserved here) */
 
 struct PartitionBlock * amiga_find_part (PedGeometry *geom, struct PartitionBlock *part);
+int amiga_part_block_size (const struct PartitionBlock *part);
 
 struct AmigaIds {
 	uint32_t ID;
diff --git a/libparted/fs/amiga/apfs.c b/libparted/fs/amiga/apfs.c
index aeaa1f3..16feaf3 100644
--- a/libparted/fs/amiga/apfs.c
+++ b/libparted/fs/amiga/apfs.c
@@ -60,10 +60,11 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 	if (amiga_find_part(geom, part) != NULL) {
 		reserved = PED_BE32_TO_CPU (part->de_Reserved);
-		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
-			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		blocksize = amiga_part_block_size (part);
 	}
 	free (part);
+	if (blocksize == 0)
+		return NULL;
 
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
@@ -81,7 +82,9 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 
 	/* Find and test the root block */
-	root = geom->start+reserved*blocksize;
+	root = geom->start + (PedSector) reserved * blocksize;
+	if (root < geom->start || root + blocksize - 1 > geom->end)
+		goto error;
 	if (!ped_device_read (geom->dev, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
diff --git a/libparted/fs/amiga/asfs.c b/libparted/fs/amiga/asfs.c
index c4c65e5..5acf292 100644
--- a/libparted/fs/amiga/asfs.c
+++ b/libparted/fs/amiga/asfs.c
@@ -73,10 +73,11 @@ _asfs_probe (PedGeometry* geom)
 		goto error_part;
 	}
 	if (amiga_find_part(geom, part) != NULL) {
-		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
-			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		blocksize = amiga_part_block_size (part);
 	}
 	free (part);
+	if (blocksize == 0)
+		return NULL;
 
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
@@ -99,7 +100,9 @@ _asfs_probe (PedGeometry* geom)
 		found++;
 	}
 	root = geom->end - blocksize - (geom->length % blocksize) + 1;
-	if (!ped_device_read (geom->dev, block, root, 1)) {
+	if (root < geom->start || root + blocksize - 1 > geom->end)
+		goto error;
+	if (!ped_device_read (geom->dev, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
-- 
2.43.0


From d5e50719fc2042e992ecafa92b92c387e71cf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 43/96] fix: don't overflow when the size of a huge file system
 is formatted

---
 libparted/unit.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index a63b98d..af46bb9 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -58,6 +58,7 @@
 #include <ctype.h>
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 
 #define N_(String) String
 #if ENABLE_NLS
@@ -272,6 +273,21 @@ ped_unit_format_byte (const PedDevice* dev, PedSector byte)
 	return ped_unit_format_custom_byte (dev, byte, default_unit);
 }
 
+/* The number of the first byte of SECTOR, or the number nearest to it that
+   can be represented: what is said to be in a file system or in a partition
+   table need not fit on any device.  */
+static PedSector
+sector_to_byte (const PedDevice* dev, PedSector sector)
+{
+	const PedSector max = LLONG_MAX / dev->sector_size;
+
+	if (sector > max)
+		return LLONG_MAX;
+	if (sector < -max)
+		return -LLONG_MAX;
+	return sector * dev->sector_size;
+}
+
 /**
  * \brief Get a string that describes the location \p sector on device \p dev.
  *
@@ -282,7 +298,8 @@ char*
 ped_unit_format_custom (const PedDevice* dev, PedSector sector, PedUnit unit)
 {
 	PED_ASSERT (dev != NULL);
-	return ped_unit_format_custom_byte(dev, sector*dev->sector_size, unit);
+	return ped_unit_format_custom_byte (dev, sector_to_byte (dev, sector),
+					    unit);
 }
 
 /**
@@ -296,7 +313,7 @@ char*
 ped_unit_format (const PedDevice* dev, PedSector sector)
 {
 	PED_ASSERT (dev != NULL);
-	return ped_unit_format_custom_byte (dev, sector * dev->sector_size,
+	return ped_unit_format_custom_byte (dev, sector_to_byte (dev, sector),
 					    default_unit);
 }
 
-- 
2.43.0


From 52205d875f037d76e067262dab8812f19fdeb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 44/96] fix: amiga: shorten a name that is too long instead of
 ignoring it

---
 libparted/labels/rdb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 8915521..f3bf2e9 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -48,7 +48,9 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	int size = strlen (cstr);
 	int i;
 
-	if (size >= maxsize) return;
+	/* the first byte is the length */
+	if (size >= maxsize)
+		size = maxsize - 1;
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-- 
2.43.0


From 5eb8a32d8368dae5c1a76dd6f5e16ea2b0de35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 45/96] fix: amiga: read the 128th partition as well

---
 libparted/fs/amiga/amiga.c | 6 +++---
 libparted/labels/rdb.c     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 9da0591..f0fb2a6 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -268,7 +268,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 {
 	struct RigidDiskBlock *rdb;
 	uint32_t partblock;
-	uint32_t partlist[AMIGA_MAX_PARTITIONS];
+	uint32_t partlist[AMIGA_MAX_PARTITIONS + 1];
 	int i;
 
 	PED_ASSERT(geom!= NULL);
@@ -299,10 +299,10 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 	}
 
 	/* We initialize the hardblock free list to detect loops */
-	for (i = 0; i < AMIGA_MAX_PARTITIONS; i++) partlist[i] = IDNAME_FREE;
+	for (i = 0; i <= AMIGA_MAX_PARTITIONS; i++) partlist[i] = IDNAME_FREE;
 
 	for (i = 1, partblock = PED_BE32_TO_CPU(rdb->rdb_PartitionList);
-		i < AMIGA_MAX_PARTITIONS && partblock != IDNAME_FREE;
+		i <= AMIGA_MAX_PARTITIONS && partblock != IDNAME_FREE;
 		i++, partblock = PED_BE32_TO_CPU(part->pb_Next))
 	{
 		PedSector start, end;
diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index f3bf2e9..f241c8b 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -490,7 +490,7 @@ amiga_read (PedDisk* disk)
 	struct RigidDiskBlock *rdb;
 	struct PartitionBlock *partition;
 	uint32_t partblock;
-	uint32_t partlist[AMIGA_MAX_PARTITIONS];
+	uint32_t partlist[AMIGA_MAX_PARTITIONS + 1];
 	PedSector cylblocks;
 	int i;
 
@@ -525,10 +525,10 @@ amiga_read (PedDisk* disk)
 		return 0;
 
 	/* We initialize the hardblock free list to detect loops */
-	for (i = 0; i < AMIGA_MAX_PARTITIONS; i++) partlist[i] = LINK_END;
+	for (i = 0; i <= AMIGA_MAX_PARTITIONS; i++) partlist[i] = LINK_END;
 
 	for (i = 1, partblock = PED_BE32_TO_CPU(rdb->rdb_PartitionList);
-		i < AMIGA_MAX_PARTITIONS && partblock != LINK_END;
+		i <= AMIGA_MAX_PARTITIONS && partblock != LINK_END;
 		i++, partblock = PED_BE32_TO_CPU(partition->pb_Next))
 	{
 		PedPartition *part;
-- 
2.43.0


From 0d57b124c0be1531eee48bfca5d52cf87ab8ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 46/96] fix: amiga: write a partition block only after the one
 it links to

---
 libparted/labels/rdb.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index f241c8b..0c39959 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -674,6 +674,8 @@ amiga_write (const PedDisk* disk)
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
+	uint32_t *blocks;
+	int num, last_num;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
@@ -738,6 +740,14 @@ amiga_write (const PedDisk* disk)
 		return 0;
 	}
 
+	/* The block of each partition */
+	last_num = ped_disk_get_last_partition_num (disk);
+	if (!(blocks = ped_calloc ((MAX (last_num, 0) + 1) * sizeof *blocks))) {
+		free (block);
+		free (table);
+		return 0;
+	}
+
 	/* And fill the free block table */
 	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
@@ -810,11 +820,21 @@ amiga_write (const PedDisk* disk)
 		partition->de_LowCyl = PED_CPU_TO_BE32(part->geom.start/cylblocks);
 		partition->de_HighCyl = PED_CPU_TO_BE32((part->geom.end+1)/cylblocks-1);
 		_amiga_calculate_checksum(AMIGA(partition));
-		if (!ped_device_write (disk->dev, (void*) partition, block_num, 1)) {
+		blocks[part->num] = block_num;
+	}
+
+	/* Write each block after the one that it links to, so that the list
+	   never leads to a block that isn't a partition block.  */
+	for (num = last_num; num > 0; num--) {
+		part = ped_disk_get_partition (disk, num);
+		if (!part)
+			continue;
+		if (!ped_device_write (disk->dev, part->disk_specific,
+				       blocks[num], 1)) {
 			ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
 				_("Failed to write partition block at %d."),
-				block_num);
+				blocks[num]);
 			goto error_free_table;
 			/* WARNING : If we fail here, we stop everything,
 			 * and the partition table is lost. A better
@@ -832,11 +852,13 @@ amiga_write (const PedDisk* disk)
 	if (!ped_device_write (disk->dev, (void*) disk->disk_specific, rdb_num, 1))
 		goto error_free_table;
 
+	free (blocks);
 	free (table);
 	free (block);
 	return ped_device_sync (disk->dev);
 
 error_free_table:
+	free (blocks);
 	free (table);
 	free (block);
 	return 0;
-- 
2.43.0


From 5512fd699bc8ab836993e6a23279c50ba431eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 47/96] fix: loop: say why a label cannot be created on a tiny
 device

---
 libparted/labels/loop.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 691739d..a4cfd57 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -79,8 +79,13 @@ loop_alloc (const PedDevice* dev)
 {
 	PED_ASSERT (dev != NULL);
 
-	if (dev->length < 256)
+	if (dev->length < 256) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("%s is too small for a \"loop\" disk label."),
+			dev->path);
 		return NULL;
+	}
 	PedDisk *disk = _ped_disk_alloc ((PedDevice*)dev, &loop_disk_type);
 	PED_ASSERT (disk != NULL);
 	PedGeometry *geom = ped_geometry_new (dev, 0, dev->length);
-- 
2.43.0


From dd1649c475b9bc72f52bfdf3ba1f93e74e660b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 48/96] fix: unit: do not garble locations with spaces, nor
 take -1.5MB or 0.50% for cylinder,head,sector

---
 libparted/unit.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index af46bb9..3a30e66 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -339,15 +339,13 @@ ped_unit_parse (const char* str, const PedDevice* dev, PedSector *sector,
 static void
 strip_string (char* str)
 {
-	int i;
+	char *dst = str;
 
-	for (i = 0; str[i] != 0; i++) {
-		if (isspace (str[i])) {
-			int j;
-			for (j = i + 1; str[j] != 0; j++)
-				str[j - 1] = str[j];
-		}
+	for (; *str != 0; str++) {
+		if (!isspace ((unsigned char) *str))
+			*dst++ = *str;
 	}
+	*dst = 0;
 }
 
 
@@ -378,8 +376,14 @@ is_chs (const char* str)
 	int punct_count = 0;
 	int i = 0;
 
+	/* a leading minus sign or a trailing percent sign does not separate
+	   the numbers of a CHS triple, e.g. "-1.5MB" or "0.50%" */
+	if (str[0] == '-')
+		return 0;
 	for (i = 0; str[i]; i++)
-		punct_count += ispunct (str[i]) != 0;
+		punct_count += ispunct ((unsigned char) str[i]) != 0;
+	if (i && str[i - 1] == '%')
+		return 0;
 	return punct_count == 2;
 }
 
@@ -525,14 +529,16 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	long long unit_size;
 	PedSector radius;
 
-	if (is_chs (str))
-		return parse_chs (str, dev, sector, range);
-
 	copy = ped_strdup (str);
 	if (!copy)
 		goto error;
 	strip_string (copy);
 
+	if (is_chs (copy)) {
+		free (copy);
+		return parse_chs (str, dev, sector, range);
+	}
+
 	suffix = find_suffix (copy);
 	unit = parse_unit_suffix (suffix, unit);
 	suffix[0] = 0;
-- 
2.43.0


From e4d09095a40885ad8e2278c8178d53dd85f9f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 49/96] fix: unit: reject a location with a malformed number

---
 libparted/unit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 3a30e66..bdad8e6 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -526,6 +526,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     copy;
 	char*     suffix;
 	double    num;
+	int       num_len;
 	long long unit_size;
 	PedSector radius;
 
@@ -543,7 +544,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	unit = parse_unit_suffix (suffix, unit);
 	suffix[0] = 0;
 
-	if (sscanf (copy, "%lf", &num) != 1) {
+	if (sscanf (copy, "%lf%n", &num, &num_len) != 1 || copy[num_len]) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-- 
2.43.0


From bb4653c8000e62cd15cbc88079502a3dbd523f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 50/96] fix: unit: refuse huge locations instead of converting
 them out of range

---
 libparted/unit.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index bdad8e6..d22244c 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -527,6 +527,8 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     suffix;
 	double    num;
 	int       num_len;
+	const double max_pos = 1LL << 62;
+	double    pos;
 	long long unit_size;
 	PedSector radius;
 
@@ -577,7 +579,13 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 				radius = 0;
 	}
 
-	*sector = num * unit_size / dev->sector_size;
+	/* far outside of any device, and still a PedSector */
+	pos = num * unit_size / dev->sector_size;
+	if (pos > max_pos)
+		pos = max_pos;
+	if (pos < -max_pos)
+		pos = -max_pos;
+	*sector = pos;
 	/* negative numbers count from the end */
 	if (copy[0] == '-')
 		*sector += dev->length;
-- 
2.43.0


From 32d63cd1fca2051915b8d35bc5306164256ed711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 51/96] fix: unit: refuse CHS locations that do not fit an int

---
 libparted/unit.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index d22244c..dbdea19 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -392,7 +392,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		PedGeometry** range)
 {
 	PedSector cyl_size = dev->bios_geom.heads * dev->bios_geom.sectors;
-	PedCHSGeometry chs;
+	struct { long long cylinders, heads, sectors; } chs;
 
 	char* copy = ped_strdup (str);
 	if (!copy)
@@ -400,7 +400,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 	strip_string (copy);
 	remove_punct (copy);
 
-	if (sscanf (copy, "%d %d %d",
+	if (sscanf (copy, "%lld %lld %lld",
 		    &chs.cylinders, &chs.heads, &chs.sectors) != 3) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
@@ -424,9 +424,11 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		goto error_free_copy;
 	}
 
-	*sector = 1LL * chs.cylinders * cyl_size
-		+ chs.heads * dev->bios_geom.sectors
-		+ chs.sectors;
+	*sector = dev->length;
+	if (chs.cylinders <= dev->length / cyl_size)
+		*sector = chs.cylinders * cyl_size
+			+ chs.heads * dev->bios_geom.sectors
+			+ chs.sectors;
 
 	if (*sector >= dev->length) {
 		ped_exception_throw (
-- 
2.43.0


From 62fea377536a66f54531a66911fd374cf0c58575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 52/96] fix: geom: ped_geometry_map takes a sector relative to
 src, as documented

---
 libparted/cs/geom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index f2a9f07..2dda95f 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -479,13 +479,13 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 	PED_ASSERT (dst != NULL);
 	PED_ASSERT (src != NULL);
 
-	if (!ped_geometry_test_sector_inside (src, sector))
+	if (sector < 0 || sector >= src->length)
 		return -1;
 	if (dst->dev != src->dev)
 		return -1;
 
 	result = src->start + sector - dst->start;
-	if (result < 0 || result > dst->length)
+	if (result < 0 || result >= dst->length)
 		return -1;
 
 	return result;
-- 
2.43.0


From 317db97a6d693888c4fd7f15ca4708062df0cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:04 +0000
Subject: [PATCH 53/96] fix: dvh: a deleted volume header can be added again

---
 libparted/labels/dvh.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 96933bc..8156f6e 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -821,7 +821,14 @@ dvh_partition_enumerate (PedPartition* part)
 			_("Too many boot files"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
-		part->num = PNUM_VOLHDR + 1;
+		if (!ped_disk_get_partition (part->disk, PNUM_VOLHDR + 1)) {
+			part->num = PNUM_VOLHDR + 1;
+			return 1;
+		}
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many primary partitions"));
 	} else {
 		for (i = 1; i <= NPARTAB; i++) {
 			/* reserved for full volume partition */
-- 
2.43.0


From 69ccc77c788e0a7d050e2153e0aa7cd609013f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:04 +0000
Subject: [PATCH 54/96] fix: amiga: compute partition bounds without signed
 overflow

---
 libparted/fs/amiga/amiga.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index f0fb2a6..943404e 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -306,7 +306,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		i++, partblock = PED_BE32_TO_CPU(part->pb_Next))
 	{
 		PedSector start, end;
-		PedSector cylblocks;
+		uint64_t cylblocks;
 
 		/* Let's look for loops in the partition table */
 		if (_amiga_loop_check(partblock, partlist, i)) {
@@ -335,10 +335,10 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		}
 
 		/* Calculate the geometry of the partition */
-		cylblocks = ((PedSector) PED_BE32_TO_CPU (part->de_Surfaces)) *
-			((PedSector) PED_BE32_TO_CPU (part->de_BlocksPerTrack));
-		start = ((PedSector) PED_BE32_TO_CPU (part->de_LowCyl)) * cylblocks;
-		end = ((((PedSector) PED_BE32_TO_CPU (part->de_HighCyl))+1) * (cylblocks))-1;
+		cylblocks = ((uint64_t) PED_BE32_TO_CPU (part->de_Surfaces)) *
+			((uint64_t) PED_BE32_TO_CPU (part->de_BlocksPerTrack));
+		start = ((uint64_t) PED_BE32_TO_CPU (part->de_LowCyl)) * cylblocks;
+		end = ((((uint64_t) PED_BE32_TO_CPU (part->de_HighCyl))+1) * (cylblocks))-1;
 
 		/* And check if it is the one we are searching for */
 		if (start == geom->start && end == geom->end) {
-- 
2.43.0


From 774a1beff665fbcd20822caa0870e05e865fc78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 55/96] fix: parted: allocate table rows by the length of the
 text, not by its display width

---
 parted/table.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parted/table.c b/parted/table.c
index 63c0e6a..bafc070 100644
--- a/parted/table.c
+++ b/parted/table.c
@@ -175,8 +175,9 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
         assert(t);
         assert(s != NULL);
 
+        /* The text of a cell can be longer than its display width.  */
         for (i = 0; i < ncols; ++i)
-                len += t->widths[i] + wcslen(DELIMITER);
+                len += wcslen(row[i]) + t->widths[i] + wcslen(DELIMITER);
 
         len += wcslen(COLSUFFIX);
 
@@ -190,8 +191,8 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
                         break;
 
                 int j;
-                int nspaces = max(t->widths[i] - wcswidth(row[i], MAX_WIDTH),
-                                  0);
+                int nspaces = max(t->widths[i]
+                                  - max(wcswidth(row[i], MAX_WIDTH), 0), 0);
                 wchar_t* pad = xmalloc ((nspaces + 1) * sizeof(*pad));
 
                 for (j = 0; j < nspaces; ++j)
-- 
2.43.0


From 008fca57043cc5fdae7b9b8d1d9f5fb16713b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 56/96] fix: parted: print a table whose partition names are
 not valid in the locale's encoding

---
 parted/parted.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index fc2aeba..37f0bf8 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -53,6 +53,7 @@
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
+#include <wchar.h>
 #include <unistd.h>
 #include <limits.h>
 #include "c-ctype.h"
@@ -1177,6 +1178,29 @@ _escape_machine_string (const char *str)
         return dest;
 }
 
+/* Return a copy of STR with every byte that is not part of a valid
+   multibyte character replaced by a question mark.  */
+static char *
+_replace_invalid_chars (const char *str)
+{
+        mbstate_t       ps;
+        char            *copy = xstrdup (str);
+        char            *p = copy;
+
+        memset (&ps, 0, sizeof (ps));
+        while (*p) {
+                size_t n = mbrlen (p, strlen (p), &ps);
+                if (n == (size_t) -1 || n == (size_t) -2) {
+                        *p++ = '?';
+                        memset (&ps, 0, sizeof (ps));
+                } else {
+                        p += n;
+                }
+        }
+
+        return copy;
+}
+
 static void
 _print_disk_info (const PedDevice *dev, const PedDisk *diskp)
 {
@@ -1449,7 +1473,9 @@ do_print (PedDevice** dev, PedDisk** diskp)
 
                             if (has_name) {
                                     name = ped_partition_get_name (part);
-                                    str_list_append (row, name);
+                                    tmp = _replace_invalid_chars (name);
+                                    str_list_append (row, tmp);
+                                    free (tmp);
                             }
 
                             char *flags = partition_print_flags (part);
-- 
2.43.0


From c054bbeae063a9871ed55341cf2457011e5327d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 57/96] fix: parted: an end at the start of the device, or the
 offered default end, is not moved back by a sector

---
 parted/parted.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 37f0bf8..6c4ea53 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -645,12 +645,23 @@ _adjust_end_if_iec (PedSector* start, PedSector* end,
         if (*start == *end)
                 return;
 
+        /* There is nothing before the start of the device */
+        if (*end == 0)
+                return;
+
+        /* No input: the default was chosen, and is exact already */
+        if (!end_input)
+                return;
+
         _strip_trailing_spaces(end_input);
         PedUnit unit = ped_unit_get_default();
         if (_string_ends_with_iec_unit(end_input) ||
             (!_string_has_unit_suffix(end_input) && _is_unit_IEC(unit))) {
                 *end -= 1;
-                range_end->start -= 1;
+                if (range_end->start > 0)
+                        range_end->start -= 1;
+                else
+                        range_end->length -= 1;
                 range_end->end -= 1;
         }
 }
-- 
2.43.0


From cb1ba32fa68018363bf540da54af0e3ce58304dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:42 +0000
Subject: [PATCH 58/96] fix: parted: resizepart fails if the table cannot be
 committed

---
 parted/parted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 6c4ea53..7689166 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1951,7 +1951,8 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                             _("Shrinking a partition can cause data loss, " \
                               "are you sure you want to continue?")) != PED_EXCEPTION_YES)
                         goto error_destroy_constraint;
-        ped_disk_commit (disk);
+        if (!ped_disk_commit (disk))
+                goto error_destroy_constraint;
 
         if ((*dev)->type != PED_DEVICE_FILE)
                 disk_is_modified = 1;
-- 
2.43.0


From 633acc8c3cbf988ed27479d8285c10304b86218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:42 +0000
Subject: [PATCH 59/96] fix: parted: print devices keeps the device and the
 table in use

---
 parted/parted.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index 7689166..f2889e0 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1356,9 +1356,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         return 0;
 
         if (has_devices_arg) {
-                char*           dev_name;
                 PedDevice*      current_dev = NULL;
-                int             status = 0;
 
                 ped_device_probe_all();
 
@@ -1370,15 +1368,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         free (end);
                 }
 
-                dev_name = xstrdup ((*dev)->path);
-                ped_device_free_all ();
-
-                *dev = ped_device_get (dev_name);
-                if (*dev && ped_device_open (*dev))
-                    status = 1;
-                free (dev_name);
-
-                return status;
+                return 1;
         }
 
         else if (has_list_arg)
-- 
2.43.0


From bab11076a8c7c9cadb1262056873c76e07fc4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 60/96] fix: parted: rescue looks for a logical partition only
 inside the extended one, and not beyond the device

---
 parted/parted.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index f2889e0..06039e6 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1754,7 +1754,8 @@ _rescue_add_partition (PedPartition* part)
  * for RAID, or something...
  */
 static int
-_rescue_pass (PedDisk* disk, PedGeometry* start_range, PedGeometry* end_range)
+_rescue_pass (PedDisk* disk, PedGeometry* start_range, PedGeometry* end_range,
+              PedSector middle)
 {
         PedSector               start;
         PedGeometry             start_geom_exact;
@@ -1763,8 +1764,7 @@ _rescue_pass (PedDisk* disk, PedGeometry* start_range, PedGeometry* end_range)
         PedPartition*           part;
         PedPartitionType        part_type;
 
-        part_type = _disk_get_part_type_for_sector (
-                        disk, (start_range->start + end_range->end) / 2);
+        part_type = _disk_get_part_type_for_sector (disk, middle);
 
         ped_geometry_init (&entire_dev, disk->dev, 0, disk->dev->length);
 
@@ -1849,12 +1849,15 @@ do_rescue (PedDevice** dev, PedDisk** diskp)
 
         ped_geometry_init (&probe_start_region, *dev,
                            PED_MAX(start - fuzz, 0),
-                           PED_MIN(2 * fuzz, (*dev)->length - (start - fuzz)));
+                           PED_MIN(2 * fuzz, (*dev)->length
+                                             - PED_MAX(start - fuzz, 0)));
         ped_geometry_init (&probe_end_region, *dev,
                            PED_MAX(end - fuzz, 0),
-                           PED_MIN(2 * fuzz, (*dev)->length - (end - fuzz)));
+                           PED_MIN(2 * fuzz, (*dev)->length
+                                             - PED_MAX(end - fuzz, 0)));
 
-        if (!_rescue_pass (disk, &probe_start_region, &probe_end_region))
+        if (!_rescue_pass (disk, &probe_start_region, &probe_end_region,
+                           (start + end) / 2))
                 goto error_destroy_disk;
 
         ped_disk_destroy (disk);
-- 
2.43.0


From d848dac1e3cd0ea05a52cc20bf369f5bbb047e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 61/96] fix: parted: rescue fails if the table cannot be
 committed

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 06039e6..6d2224c 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1744,7 +1744,7 @@ _rescue_add_partition (PedPartition* part)
                 return 0;
 
         if (!ped_disk_commit (part->disk))
-                return 0;
+                return -1;
 
         return 1;
 }
-- 
2.43.0


From 40bcd1d606f35625442f7d3ccef01f33339b45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 62/96] fix: parted: a type-id beyond 32 bits is invalid, not
 truncated

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 6d2224c..8d4f313 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -978,7 +978,7 @@ do_type (PedDevice** dev, PedDisk** diskp)
                 if (!input)
                     goto error;
 
-                unsigned int tmp = strtol (input, (char**) NULL, 16);
+                long tmp = strtol (input, (char**) NULL, 16);
                 if (tmp < 0x01 || tmp > 0xff) {
                         ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
                                              _("Invalid type-id."));
-- 
2.43.0


From 954bc78413410525f4807001cbe50a87c53050b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:14 +0000
Subject: [PATCH 63/96] fix: parted: an unknown command in script mode is a
 failure

---
 parted/ui.c | 1 -
 parted/ui.h | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index d6d1da4..57aaded 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -1600,7 +1600,6 @@ help_msg ()
         putchar ('\n');
         print_commands_help ();
         printf (_("\nReport bugs to %s\n"), PACKAGE_BUGREPORT);
-        exit (EXIT_SUCCESS);
 }
 
 void
diff --git a/parted/ui.h b/parted/ui.h
index 61a71de..393dd5d 100644
--- a/parted/ui.h
+++ b/parted/ui.h
@@ -83,7 +83,7 @@ extern int command_line_get_align_type (const char *prompt,
 extern int command_line_is_integer ();
 extern int command_line_is_sector ();
 
-extern void help_msg () __attribute__((__noreturn__));
+extern void help_msg ();
 
 extern void print_using_dev (PedDevice* dev);
 
-- 
2.43.0


From e248584ed0b721fce539c5225c936ef211010614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:45 +0000
Subject: [PATCH 64/96] fix: amiga: a fresh label's reserved area ends within
 the device

---
 libparted/labels/rdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 0c39959..0159fe9 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -400,7 +400,7 @@ amiga_alloc (const PedDevice* dev)
 	rdb->rdb_StepRate = PED_CPU_TO_BE32 (0);
 
 	highest_cylinder = 1 + MAX_RDB_BLOCK / cyl_size;
-	highest_block = highest_cylinder * cyl_size - 1;
+	highest_block = PED_MIN (highest_cylinder * cyl_size, dev->length) - 1;
 
 	/* Logical driver characteristics */
 	rdb->rdb_RDBBlocksLo = PED_CPU_TO_BE32 (0);
-- 
2.43.0


From 627f404943f3df76891a4c36495cb4da291764d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:07 +0000
Subject: [PATCH 65/96] fix: parted: report a missing location or flag in
 script mode

---
 parted/ui.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 57aaded..e464842 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -987,6 +987,8 @@ command_line_get_sector (const char* prompt, PedDevice* dev, PedSector* value,
                 *value = 0;
                 if (range)
                         *range = NULL;
+                ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                                     _("Expecting a location."));
                 return 0;
         }
 
@@ -1181,8 +1183,10 @@ command_line_get_disk_flag (const char* prompt, const PedDisk* disk,
                 *flag = ped_disk_flag_get_by_name (flag_name);
                 free (flag_name);
                 return 1;
-        } else
-                return 0;
+        }
+        ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                             _("Expecting a flag."));
+        return 0;
 }
 
 int
@@ -1217,8 +1221,10 @@ command_line_get_part_flag (const char* prompt, const PedPartition* part,
                 *flag = ped_partition_flag_get_by_name (flag_name);
                 free (flag_name);
                 return 1;
-        } else
-                return 0;
+        }
+        ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                             _("Expecting a flag."));
+        return 0;
 }
 
 static int
-- 
2.43.0


From babc9eff9d58162b7e5c7d68e0e611ea40a972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:57 +0000
Subject: [PATCH 66/96] fix: parted: naming a partition that cannot have a name
 is a failure

---
 parted/parted.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index 8d4f313..06d2472 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -929,6 +929,9 @@ do_name (PedDevice** dev, PedDisk** diskp)
                 goto error;
         if (!ped_partition_set_name (part, name))
                 goto error_free_name;
+        /* the label has reported why, if the partition cannot have a name */
+        if (name[strspn (name, " ")] && !*ped_partition_get_name (part))
+                goto error_free_name;
         free (name);
 
         if (!ped_disk_commit (*diskp))
-- 
2.43.0


From 309cf9b27f11568ed9dd900bfe74d79c67a46900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:57 +0000
Subject: [PATCH 67/96] fix: amiga: the metadata of a small device ends within
 it

---
 libparted/labels/rdb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 0159fe9..2ff04ee 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -1192,7 +1192,8 @@ amiga_alloc_metadata (PedDisk* disk)
 
 	/* Allocate space for the RDB */
 	new_part = ped_partition_new (disk, PED_PARTITION_METADATA, NULL,
-	                              0, MAX_RDB_BLOCK);
+	                              0, PED_MIN (MAX_RDB_BLOCK,
+	                                          disk->dev->length - 1));
 	if (!new_part)
 		goto error;
 
-- 
2.43.0


From e9d3530b95f71332447e298d44f0757f8d8258ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:36 +0000
Subject: [PATCH 68/96] fix: geometry: look for the bad block inside the group
 that failed

---
 libparted/cs/geom.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 2dda95f..48fbae6 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -439,8 +439,12 @@ retry:
 
 found_error:
 	ped_exception_catch();
-	for (i = group; i + granularity < group + count; i += granularity) {
-		if (!ped_geometry_read (geom, buffer, i, granularity)) {
+	/* look for the granule in the group that failed */
+	for (i = group - (group - offset) % granularity;
+	     i < group + read_len; i += granularity) {
+		if (!ped_geometry_read (geom, buffer, i,
+					PED_MIN (granularity,
+						 offset + count - i))) {
 			ped_exception_catch();
 			ped_exception_leave_all();
 			return i;
-- 
2.43.0


From 985b0d8856629d6eb0ab7b461d7703ae34557c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:36 +0000
Subject: [PATCH 69/96] fix: linux: ped_device_check overran its buffer, lost
 short reads and hung at the end of the device

---
 libparted/arch/linux.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..fe37038 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2125,8 +2125,9 @@ static PedSector
 linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
 {
         LinuxSpecific*  arch_specific = LINUX_SPECIFIC (dev);
-        PedSector       done = 0;
-        int             status;
+        size_t          done = 0;
+        size_t          length;
+        ssize_t         status;
         void*           diobuf;
 
         PED_ASSERT(dev != NULL);
@@ -2134,21 +2135,21 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        length = count * dev->sector_size;
+        if (posix_memalign(&diobuf, dev->sector_size, length) != 0)
                 return 0;
 
-        for (done = 0; done < count; done += status / dev->sector_size) {
-                status = read (arch_specific->fd, diobuf,
-                               (size_t) ((count-done) * dev->sector_size));
-                if (status > 0)
-                        memcpy(buffer, diobuf, status);
-                if (status < 0)
+        /* a short read may end inside a sector: count bytes */
+        while (done < length) {
+                status = read (arch_specific->fd, diobuf, length - done);
+                if (status <= 0)
                         break;
+                memcpy((char *) buffer + done, diobuf, status);
+                done += status;
         }
         free(diobuf);
 
-        return done;
+        return done / dev->sector_size;
 }
 
 static int
-- 
2.43.0


From bacad149bfd6c624e0dafbe53df62fb1bdbe567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 70/96] fix: linux: SCSI devices without an id had an
 uninitialised model

---
 libparted/arch/linux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index fe37038..7c5086d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1173,6 +1173,7 @@ init_scsi (PedDevice* dev)
                         dev->path, strerror (errno))
                                 != PED_EXCEPTION_IGNORE)
                         goto error_close_dev;
+                dev->model = strdup ("Generic SCSI");
                 if (!_device_probe_geometry (dev))
                         goto error_close_dev;
                 _device_close (dev);
-- 
2.43.0


From 4baba69e4b93b755d5abb2a44e21d086ea9e59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 71/96] fix: linux: use the ioctl results for a partition's
 start and length, not the failures

---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 7c5086d..4d998bb 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2779,7 +2779,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         if (!ok) {
                 struct hd_geometry geom;
                 int dev_fd = open (dev_name, O_RDONLY);
-                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom)) {
+                if (dev_fd != -1 && !ioctl (dev_fd, HDIO_GETGEO, &geom)) {
                         *start = geom.start;
                         close (dev_fd);
                         ok = true;
@@ -2796,7 +2796,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         int fd;
         if (!ok) {
                 fd = open (dev_name, O_RDONLY);
-                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length))
+                if (fd != -1 && !ioctl (fd, BLKGETSIZE64, length))
                         ok = true;
         } else {
                 fd = -1;
-- 
2.43.0


From 0e8103bfbdd26db2e5fbbffa7112cbb2eb3b23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 72/96] fix: linux: a device is busy when a partition above 31
 is mounted

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 4d998bb..49c4350 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1630,12 +1630,13 @@ static int
 linux_is_busy (PedDevice* dev)
 {
         int     i;
+        int     lpn = PED_MAX (32, (int) _device_get_partition_range (dev));
         char*   part_name;
 
         if (_partition_is_mounted_by_path (dev->path))
                 return 1;
 
-        for (i = 0; i < 32; i++) {
+        for (i = 0; i < lpn; i++) {
                 int status;
 
                 part_name = _device_get_part_path (dev, i);
-- 
2.43.0


From c6dc8bfeb84954f085518bfb7dfa70ab6ca2a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 73/96] fix: linux: tell about partitions in use that the new
 label has no number for

---
 libparted/arch/linux.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 49c4350..2adad7d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3168,11 +3168,10 @@ _disk_sync_part_table (PedDisk* disk)
                 if (!ok[i - 1] && errnums[i - 1] == ENXIO)
                         ok[i - 1] = 1; /* it already doesn't exist */
         }
-        lpn = lpn2;
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
-                lpn = 0;
-        for (i = 1; i <= lpn; i++) {
+                lpn2 = 0;
+        for (i = 1; i <= lpn2; i++) {
                 PedPartition *part = ped_disk_get_partition (disk, i);
                 if (!part)
                         continue;
@@ -3210,6 +3209,9 @@ _disk_sync_part_table (PedDisk* disk)
         for (i = 1; i <= lpn; i++) {
                 if (ok[i - 1] || errnums[i - 1] == ENXIO)
                         continue;
+                /* the new label cannot have this one, but it may be in use */
+                if (i > lpn2 && errnums[i - 1] != EBUSY)
+                        continue;
                 if (bad_part_list == NULL) {
                         bad_part_list = malloc (lpn * 5);
                         if (!bad_part_list)
-- 
2.43.0


From 225dc2e106d9851aed4a183568bd823b29d36083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 74/96] fix: linux: shrink partitions in the kernel before
 adding others in the space they give back

---
 libparted/arch/linux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 2adad7d..0ca3721 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3149,6 +3149,10 @@ _disk_sync_part_table (PedDisk* disk)
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
                                 ok[i - 1] = 1;
+                                /* but give back space others may be added in;
+                                   the add pass finds out if this worked */
+                                if ((PedSector) length > part->geom.length)
+                                        resize_partition (disk, part);
                                 continue;
                         }
                 }
-- 
2.43.0


From 1b24502d8041411e935f98fa8086af7557fbdd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 75/96] fix: linux: an extended partition of one sector has
 only one in the kernel too

---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 0ca3721..0ede62e 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2605,7 +2605,7 @@ _blkpg_add_partition (PedDisk* disk, const PedPartition *part)
                 linux_part.length = 1;
                 if (disk->dev->sector_size == 512) {
                         if (linux_part.length == 1)
-                                linux_part.length = 2;
+                                linux_part.length = PED_MIN (2, part->geom.length);
                         PedPartition *walk;
                         /* if the second sector is claimed by a logical partition,
                            then there's just no room for lilo, so don't try to use it */
@@ -2665,7 +2665,7 @@ static int _blkpg_resize_partition (PedDisk* disk, const PedPartition *part)
         /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
         if (part->type & PED_PARTITION_EXTENDED) {
                 if (disk->dev->sector_size == 512) {
-                        linux_part.length = 2;
+                        linux_part.length = PED_MIN (2, part->geom.length);
                         PedPartition *walk;
                         /* if the second sector is claimed by a logical partition,
                            then there's just no room for lilo, so don't try to use it */
-- 
2.43.0


From b2aa9a9b5124144bc3de2746a3cba3e79bdb8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 76/96] fix: linux: a partition that becomes extended in place
 must shrink in the kernel

---
 libparted/arch/linux.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 0ede62e..eb9c64f 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3088,10 +3088,13 @@ _disk_sync_part_table (PedDisk* disk)
         bool (*get_partition_start_and_length)(PedPartition const *part,
                                                unsigned long long *start,
                                                unsigned long long *length);
+        /* the kernel gets only the first sectors of an extended partition */
+        bool short_extended = true;
 
 
 #ifdef ENABLE_DEVICE_MAPPER
         if (disk->dev->type == PED_DEVICE_DM) {
+                short_extended = false;
                 add_partition = _dm_add_partition;
                 remove_partition = _dm_remove_partition;
                 resize_partition = _dm_resize_partition;
@@ -3144,14 +3147,18 @@ _disk_sync_part_table (PedDisk* disk)
                         if (get_partition_start_and_length(part,
                                                            &start, &length)
                             && start == part->geom.start
-                            && (length == part->geom.length
+                            && ((length == part->geom.length
+                                 && !(short_extended
+                                      && part->type == PED_PARTITION_EXTENDED))
                                 || (resize_partition && part->num < lpn2)))
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
                                 ok[i - 1] = 1;
                                 /* but give back space others may be added in;
                                    the add pass finds out if this worked */
-                                if ((PedSector) length > part->geom.length)
+                                if ((PedSector) length > part->geom.length
+                                    || (short_extended
+                                        && part->type == PED_PARTITION_EXTENDED))
                                         resize_partition (disk, part);
                                 continue;
                         }
@@ -3186,7 +3193,9 @@ _disk_sync_part_table (PedDisk* disk)
                                                    &start, &length)
                     && start == part->geom.start)
                 {
-                        if (length == part->geom.length) {
+                        if (length == part->geom.length
+                            && !(short_extended
+                                 && part->type == PED_PARTITION_EXTENDED)) {
                                 ok[i - 1] = 1;
                                 /* partition is unchanged, so nothing to do */
                                 continue;
-- 
2.43.0


From 0dafc3c2fc08df6c60e81023f3639dca75e78036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 77/96] fix: ufs: the file system's size is in fragments, not
 blocks

---
 libparted/fs/ufs/ufs.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/libparted/fs/ufs/ufs.c b/libparted/fs/ufs/ufs.c
index d2bf421..85e5a29 100644
--- a/libparted/fs/ufs/ufs.c
+++ b/libparted/fs/ufs/ufs.c
@@ -172,6 +172,17 @@ struct __attribute__ ((packed)) ufs_super_block {
 	uint8_t	fs_space[4];		/* list of blocks for each rotation */
 };
 
+/* fs_size counts fragments, not blocks */
+static PedGeometry*
+_ufs_geometry (const PedGeometry* geom, uint32_t frag_size,
+	       uint32_t frag_count)
+{
+	uint64_t bytes = (uint64_t) frag_size * frag_count;
+
+	return ped_geometry_new (geom->dev, geom->start,
+				 bytes / geom->dev->sector_size);
+}
+
 static PedGeometry*
 ufs_probe_sun (PedGeometry* geom)
 {
@@ -188,16 +199,12 @@ ufs_probe_sun (PedGeometry* geom)
 	sb = (struct ufs_super_block *)buf;
 
 	if (PED_BE32_TO_CPU(sb->fs_magic) == UFS_MAGIC) {
-		PedSector block_size = PED_BE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
-		PedSector block_count = PED_BE32_TO_CPU(sb->fs_size);
-		return ped_geometry_new (geom->dev, geom->start,
-					 block_size * block_count);
+		return _ufs_geometry (geom, PED_BE32_TO_CPU(sb->fs_fsize),
+				      PED_BE32_TO_CPU(sb->fs_size));
 	}
 	if (PED_LE32_TO_CPU(sb->fs_magic) == UFS_MAGIC) {
-		PedSector block_size = PED_LE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
-		PedSector block_count = PED_LE32_TO_CPU(sb->fs_size);
-		return ped_geometry_new (geom->dev, geom->start,
-					 block_size * block_count);
+		return _ufs_geometry (geom, PED_LE32_TO_CPU(sb->fs_fsize),
+				      PED_LE32_TO_CPU(sb->fs_size));
 	}
 	return NULL;
 }
@@ -206,8 +213,6 @@ static PedGeometry*
 ufs_probe_hp (PedGeometry* geom)
 {
 	struct ufs_super_block *sb;
-	PedSector block_size;
-	PedSector block_count;
 
 	if (geom->length < 5)
 		return 0;
@@ -225,10 +230,8 @@ ufs_probe_hp (PedGeometry* geom)
 		case UFS_MAGIC_LFN:
 		case UFS_MAGIC_FEA:
 		case UFS_MAGIC_4GB:
-			block_size = PED_BE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
-			block_count = PED_BE32_TO_CPU(sb->fs_size);
-			return ped_geometry_new (geom->dev, geom->start,
-						 block_size * block_count);
+			return _ufs_geometry (geom, PED_BE32_TO_CPU(sb->fs_fsize),
+					      PED_BE32_TO_CPU(sb->fs_size));
 	}
 
 	/* Try perverted bytesex */
@@ -236,10 +239,8 @@ ufs_probe_hp (PedGeometry* geom)
 		case UFS_MAGIC_LFN:
 		case UFS_MAGIC_FEA:
 		case UFS_MAGIC_4GB:
-			block_size = PED_LE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
-			block_count = PED_LE32_TO_CPU(sb->fs_size);
-			return ped_geometry_new (geom->dev, geom->start,
-						 block_size * block_count);
+			return _ufs_geometry (geom, PED_LE32_TO_CPU(sb->fs_fsize),
+					      PED_LE32_TO_CPU(sb->fs_size));
 	}
 	return NULL;
 }
-- 
2.43.0


From d5f53b3c7ce562605394195c7d1529a6cb9d78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 78/96] fix: f2fs: find the super block on sectors larger than
 512 bytes

---
 libparted/fs/f2fs/f2fs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/f2fs/f2fs.c b/libparted/fs/f2fs/f2fs.c
index 68ed092..90b030b 100644
--- a/libparted/fs/f2fs/f2fs.c
+++ b/libparted/fs/f2fs/f2fs.c
@@ -26,9 +26,13 @@
 static PedGeometry*
 f2fs_probe (PedGeometry* geom)
 {
-        struct f2fs_super_block *sb = alloca(geom->dev->sector_size);
+        /* the super block is 1024 bytes into the partition */
+        const PedSector offset = F2FS_SB_OFFSET * 512;
+        uint8_t *buf = alloca(geom->dev->sector_size);
+        struct f2fs_super_block *sb = (struct f2fs_super_block *)
+                (buf + offset % geom->dev->sector_size);
 
-        if (!ped_geometry_read (geom, sb, F2FS_SB_OFFSET, 1))
+        if (!ped_geometry_read (geom, buf, offset / geom->dev->sector_size, 1))
                 return NULL;
 
         if (PED_LE32_TO_CPU(sb->magic) == F2FS_MAGIC)
-- 
2.43.0


From 70b726561bb66086a44e5e1c8f9452443059b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 79/96] fix: reiserfs: find the super block on 1024 and 2048
 byte sectors

---
 libparted/fs/reiserfs/reiserfs.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/fs/reiserfs/reiserfs.c b/libparted/fs/reiserfs/reiserfs.c
index 0638f3e..032e5e8 100644
--- a/libparted/fs/reiserfs/reiserfs.c
+++ b/libparted/fs/reiserfs/reiserfs.c
@@ -36,7 +36,8 @@
 
 #include "reiserfs.h"
 
-static PedSector reiserfs_super_offset[] = { 128, 16, -1 };
+/* in bytes */
+static PedSector reiserfs_super_offset[] = { 128 * 512, 16 * 512, -1 };
 static PedFileSystemType* reiserfs_type;
 
 static PedGeometry *reiserfs_probe(PedGeometry *geom)
@@ -47,9 +48,11 @@ static PedGeometry *reiserfs_probe(PedGeometry *geom)
 	reiserfs_super_block_t *sb = alloca (geom->dev->sector_size);
 
 	for (i = 0; reiserfs_super_offset[i] != -1; i++) {
-		if (reiserfs_super_offset[i] >= geom->length)
+		PedSector offset = reiserfs_super_offset[i]
+					/ geom->dev->sector_size;
+		if (offset >= geom->length)
 			continue;
-		if (!ped_geometry_read (geom, sb, reiserfs_super_offset[i], 1))
+		if (!ped_geometry_read (geom, sb, offset, 1))
 			continue;
 
 		if (strncmp(REISERFS_SIGNATURE, sb->s_magic,
-- 
2.43.0


From 4e41ee794245119ba2f144d1fe4b80969a14b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 80/96] fix: fat: report the extent in sectors of the device

---
 libparted/fs/fat/fat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/fat/fat.c b/libparted/fs/fat/fat.c
index c04f178..55ccfa9 100644
--- a/libparted/fs/fat/fat.c
+++ b/libparted/fs/fat/fat.c
@@ -81,8 +81,11 @@ fat_probe (PedGeometry* geom, FatType* fat_type)
 		goto error_free_fs;
 
 	*fat_type = fs_info->fat_type;
+	/* sector_count is in units of 512 bytes */
 	result = ped_geometry_new (geom->dev, geom->start,
-				   fs_info->sector_count);
+				   ped_div_round_up (fs_info->sector_count,
+						     geom->dev->sector_size
+						     / 512));
 
 	fat_free (fs);
 	return result;
-- 
2.43.0


From b6957b63c44ad04b7b069f95935a0fa07f3d4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 81/96] fix: fat: tell FAT12 from FAT16 by the file system's
 size, not the partition's

---
 libparted/fs/fat/bootsector.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/fat/bootsector.c b/libparted/fs/fat/bootsector.c
index f02685b..1f53f6e 100644
--- a/libparted/fs/fat/bootsector.c
+++ b/libparted/fs/fat/bootsector.c
@@ -91,6 +91,7 @@ fat_boot_sector_probe_type (const FatBootSector* bs, const PedGeometry* geom)
 {
 	PedSector	logical_sector_size;
 	PedSector	first_cluster_sector;
+	PedSector	sector_count;
 	FatCluster	cluster_count;
 
 	if (!PED_LE16_TO_CPU (bs->dir_entries))
@@ -100,10 +101,21 @@ fat_boot_sector_probe_type (const FatBootSector* bs, const PedGeometry* geom)
 
 	first_cluster_sector
 		= PED_LE16_TO_CPU (bs->reserved) * logical_sector_size
-		  + 2 * PED_LE16_TO_CPU (bs->fat_length) * logical_sector_size
+		  + bs->fats * PED_LE16_TO_CPU (bs->fat_length)
+		    * logical_sector_size
 		  + PED_LE16_TO_CPU (bs->dir_entries)
 			/ (512 / sizeof (FatDirEntry));
-	cluster_count = (geom->length - first_cluster_sector)
+	/* what counts is the size of the file system; the partition may be
+	   larger */
+	if (bs->sectors)
+		sector_count = PED_LE16_TO_CPU (bs->sectors)
+				* logical_sector_size;
+	else
+		sector_count = PED_LE32_TO_CPU (bs->sector_count)
+				* logical_sector_size;
+	if (sector_count < first_cluster_sector)
+		return FAT_TYPE_FAT12;
+	cluster_count = (sector_count - first_cluster_sector)
 			/ bs->cluster_size / logical_sector_size;
 	if (cluster_count > MAX_FAT12_CLUSTERS)
 		return FAT_TYPE_FAT16;
-- 
2.43.0


From 37f7112a66ac717501c57d1d3293b13a721c1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 82/96] fix: fs resize: clear signatures within the new extent
 only

---
 libparted/fs/r/filesys.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libparted/fs/r/filesys.c b/libparted/fs/r/filesys.c
index 856238c..261a5eb 100644
--- a/libparted/fs/r/filesys.c
+++ b/libparted/fs/r/filesys.c
@@ -41,10 +41,6 @@
 
 #define STREQ(a, b) (strcmp (a, b) == 0)
 
-#ifndef MIN
-# define MIN(a,b) (((a) < (b)) ? (a) : (b))
-#endif
-
 typedef PedFileSystem * (*open_fn_t) (PedGeometry *);
 extern PedFileSystem *hfsplus_open (PedGeometry *);
 extern PedFileSystem *hfs_open (PedGeometry *);
@@ -227,12 +223,12 @@ ped_file_system_clobber (PedGeometry* geom)
 
   /* Clear the first three and the last two sectors, albeit fewer
      when GEOM is too small.  */
-  PedSector len = MIN (geom->length, geom->dev->length);
+  PedSector len = geom->length;
 
   int ok = (len <= 5
 	    ? ptt_geom_clear_sectors (geom, 0, len)
 	    : (ptt_geom_clear_sectors (geom, 0, 3)
-	       && ptt_geom_clear_sectors (geom, geom->dev->length - 2, 2)));
+	       && ptt_geom_clear_sectors (geom, geom->length - 2, 2)));
 
   ped_device_close (geom->dev);
   return !!ok;
-- 
2.43.0


From e25ca681d1e796994726548d840f346c678bba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 83/96] fix: fat resize: keep files whose name starts with byte
 0xF6

---
 libparted/fs/r/fat/traverse.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libparted/fs/r/fat/traverse.c b/libparted/fs/r/fat/traverse.c
index 506223f..d1c9e89 100644
--- a/libparted/fs/r/fat/traverse.c
+++ b/libparted/fs/r/fat/traverse.c
@@ -297,7 +297,6 @@ fat_dir_entry_is_active (FatDirEntry* dir_entry)
 {
 	if ((unsigned char) dir_entry->name[0] == DELETED_FLAG) return 0;
 	if ((unsigned char) dir_entry->name[0] == 0) return 0;
-	if ((unsigned char) dir_entry->name[0] == 0xF6) return 0;
 	return 1;
 }
 
-- 
2.43.0


From a42d7c0948427b3683f96520d422566ddf3ce49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 84/96] fix: fat resize: relocate data correctly after a write
 error

---
 libparted/fs/r/fat/clstdup.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libparted/fs/r/fat/clstdup.c b/libparted/fs/r/fat/clstdup.c
index 6a3054f..53b3092 100644
--- a/libparted/fs/r/fat/clstdup.c
+++ b/libparted/fs/r/fat/clstdup.c
@@ -265,12 +265,18 @@ slow_group_write (FatOpContext* ctx, int first, int last)
 		while (!fat_write_sync_fragment (ctx->new_fs,
 			      old_fs_info->buffer + i * old_fs_info->frag_size,
 			      ctx->buffer_map [i])) {
-			fat_table_set_bad (new_fs_info->fat,
-					   ctx->buffer_map [i]);
-			ctx->buffer_map [i] = fat_table_alloc_cluster
-						(new_fs_info->fat);
-			if (ctx->buffer_map [i] == 0)
+			FatCluster cluster;
+
+			/* fragments are as big as the new clusters */
+			cluster = fat_frag_to_cluster (ctx->new_fs,
+						       ctx->buffer_map [i]);
+			fat_table_set_bad (new_fs_info->fat, cluster);
+			cluster = fat_table_alloc_cluster (new_fs_info->fat);
+			if (!cluster)
 				return 0;
+			fat_table_set_eof (new_fs_info->fat, cluster);
+			ctx->buffer_map [i]
+				= fat_cluster_to_frag (ctx->new_fs, cluster);
 		}
 	}
 	return 1;
-- 
2.43.0


From a9257566ebb4a083c51955c6484dfd58ef90d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 85/96] fix: fat resize: free the right clusters when
 converting to FAT16

---
 libparted/fs/r/fat/resize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 78dede4..5a47204 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -270,12 +270,12 @@ free_root_dir (FatOpContext* ctx)
 	     old_cluster = fat_table_get (old_fs_info->fat, old_cluster)) {
 		FatFragment old_frag;
 		old_frag = fat_cluster_to_frag (ctx->old_fs, old_cluster);
-		for (i = 0; i < new_fs_info->cluster_frags; i++) {
+		for (i = 0; i < old_fs_info->cluster_frags; i++) {
 			FatFragment new_frag;
 			FatCluster new_clst;
 			new_frag = fat_op_context_map_fragment (ctx,
 								old_frag + i);
-			new_clst = fat_frag_to_cluster (ctx->old_fs, new_frag);
+			new_clst = fat_frag_to_cluster (ctx->new_fs, new_frag);
 			if (!fat_table_set_avail (new_fs_info->fat, new_clst))
 				return 0;
 		}
-- 
2.43.0


From 091104c63ef4e70b24bfebc1bfcf244848039716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 86/96] fix: fat resize: make room for big FAT16 root
 directories

---
 libparted/fs/r/fat/context.h |  4 +++-
 libparted/fs/r/fat/resize.c  | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/libparted/fs/r/fat/context.h b/libparted/fs/r/fat/context.h
index 9a76a47..42ed9c6 100644
--- a/libparted/fs/r/fat/context.h
+++ b/libparted/fs/r/fat/context.h
@@ -46,7 +46,9 @@ struct _FatOpContext {
 
 	FatFragment*		remap;
 
-	FatCluster		new_root_dir [32];
+	/* room for a FAT16 root directory of 65535 entries, in the smallest
+	   clusters of FAT32, and a terminator */
+	FatCluster		new_root_dir [4096 / 8 + 1];
 };
 typedef struct _FatOpContext FatOpContext;
 
diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 5a47204..20e0a67 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -87,17 +87,18 @@ duplicate_legacy_root_dir (FatOpContext* ctx)
 	PED_ASSERT (old_fs_info->root_dir_sector_count
 			== new_fs_info->root_dir_sector_count);
 
-	if (!ped_geometry_read (ctx->old_fs->geom, old_fs_info->buffer,
-				old_fs_info->root_dir_offset,
-				old_fs_info->root_dir_sector_count))
+	/* it may be bigger than old_fs_info->buffer */
+	void *root_dir;
+	if (!ped_geometry_read_alloc (ctx->old_fs->geom, &root_dir,
+				      old_fs_info->root_dir_offset,
+				      old_fs_info->root_dir_sector_count))
 		return 0;
 
-	if (!ped_geometry_write (ctx->new_fs->geom, old_fs_info->buffer,
-				 new_fs_info->root_dir_offset,
-				 new_fs_info->root_dir_sector_count))
-		return 0;
-
-	return 1;
+	int ok = ped_geometry_write (ctx->new_fs->geom, root_dir,
+				     new_fs_info->root_dir_offset,
+				     new_fs_info->root_dir_sector_count);
+	free (root_dir);
+	return ok;
 }
 
 /*
-- 
2.43.0


From 58f600ec330de210563cc87165e9a5bec83a166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 87/96] fix: fat resize: do not clear the old directories
 before reading them

---
 libparted/fs/r/fat/resize.c | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 20e0a67..2cd20d4 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -285,30 +285,6 @@ free_root_dir (FatOpContext* ctx)
 	return 1;
 }
 
-static int
-fat_clear_root_dir (PedFileSystem* fs)
-{
-	FatSpecific*	fs_info = FAT_SPECIFIC (fs);
-	int		i;
-
-	PED_ASSERT (fs_info->fat_type == FAT_TYPE_FAT16);
-	PED_ASSERT (fs_info->root_dir_sector_count);
-
-	memset (fs_info->buffer, 0, 512);
-
-	for (i = 0; i < fs_info->root_dir_sector_count; i++) {
-		if (!ped_geometry_write (fs->geom, fs_info->buffer,
-					 fs_info->root_dir_offset + i, 1)) {
-			if (ped_exception_throw (PED_EXCEPTION_ERROR,
-				PED_EXCEPTION_IGNORE_CANCEL,
-				_("Error writing to the root directory."))
-					== PED_EXCEPTION_CANCEL)
-				return 0;
-		}
-	}
-	return 1;
-}
-
 static int
 fat_construct_converted_tree (FatOpContext* ctx)
 {
@@ -324,10 +300,14 @@ fat_construct_converted_tree (FatOpContext* ctx)
 		old_trav_info = fat_traverse_begin (ctx->old_fs, FAT_ROOT,
 						    "\\");
 	} else {
-		fat_clear_root_dir (ctx->new_fs);
 		new_trav_info = fat_traverse_begin (ctx->new_fs, FAT_ROOT,
 						    "\\");
 		if (!new_trav_info) return 0;
+		/* Start with an empty root directory, but only in memory: it
+		   may lie where the old directories still are.  */
+		memset (new_trav_info->dir_entries, 0,
+			new_trav_info->buffer_size);
+		fat_traverse_mark_dirty (new_trav_info);
 		old_trav_info = fat_traverse_begin (ctx->old_fs,
 					    old_fs_info->root_cluster, "\\");
 	}
-- 
2.43.0


From 391b12281d89cb1cc16cf4de4c5d5df737149c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 88/96] fix: fat resize: count the root directory when choosing
 the FAT type

---
 libparted/fs/r/fat/resize.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 2cd20d4..bf28c41 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -560,7 +560,7 @@ ask_type (PedFileSystem* fs, int fat16_ok, int fat32_ok, FatType* out_fat_type)
  */
 static int
 get_fat_type (PedFileSystem* fs, const PedGeometry* new_geom,
-	      FatType* out_fat_type)
+	      PedSector root_dir_sector_count, FatType* out_fat_type)
 {
 	FatSpecific*		fs_info = FAT_SPECIFIC (fs);
 	PedSector		fat16_cluster_sectors;
@@ -574,7 +574,7 @@ get_fat_type (PedFileSystem* fs, const PedGeometry* new_geom,
 				    new_geom,
 				    fs_info->cluster_sectors,
 				    FAT_TYPE_FAT16,
-				    fs_info->root_dir_sector_count,
+				    root_dir_sector_count,
 				    fs_info->cluster_sectors,
 				    &fat16_cluster_sectors,
 				    &dummy_cluster_count,
@@ -584,7 +584,7 @@ get_fat_type (PedFileSystem* fs, const PedGeometry* new_geom,
 				    new_geom,
 				    fs_info->cluster_sectors,
 				    FAT_TYPE_FAT32,
-				    fs_info->root_dir_sector_count,
+				    root_dir_sector_count,
 				    fs_info->cluster_sectors,
 				    &fat32_cluster_sectors,
 				    &dummy_cluster_count,
@@ -619,12 +619,13 @@ create_resize_context (PedFileSystem* fs, const PedGeometry* new_geom)
 		root_dir_sector_count = FAT_ROOT_DIR_ENTRY_COUNT
 						* sizeof (FatDirEntry) / 512;
 
-	if (!get_fat_type (fs, new_geom, &new_fat_type))
+	if (!get_fat_type (fs, new_geom, root_dir_sector_count, &new_fat_type))
 		return 0;
 
-	fat_calc_resize_sizes (new_geom, fs_info->cluster_sectors, new_fat_type,
-		root_dir_sector_count, fs_info->cluster_sectors,
-		&new_cluster_sectors, &new_cluster_count, &new_fat_sectors);
+	if (!fat_calc_resize_sizes (new_geom, fs_info->cluster_sectors,
+		new_fat_type, root_dir_sector_count, fs_info->cluster_sectors,
+		&new_cluster_sectors, &new_cluster_count, &new_fat_sectors))
+		goto error;
 
 	if (!fat_check_resize_geometry (fs, new_geom, new_cluster_sectors,
 				        new_cluster_count))
-- 
2.43.0


From ba4a8ccd66058d50c0df91d1980364f6cce70b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:21 +0000
Subject: [PATCH 89/96] fix: fat resize: keep the volume label, and do not mark
 a converted FAT16 dirty

---
 libparted/fs/r/fat/bootsector.c |  6 ++++--
 libparted/fs/r/fat/resize.c     | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/r/fat/bootsector.c b/libparted/fs/r/fat/bootsector.c
index 8c34e2f..f232c4c 100644
--- a/libparted/fs/r/fat/bootsector.c
+++ b/libparted/fs/r/fat/bootsector.c
@@ -353,10 +353,11 @@ fat_boot_sector_generate (FatBootSector** bsp, const PedFileSystem* fs)
 
 		memset (bs->u.fat32.empty_1, 0, 12);
 
+		if (bs->u.fat32.ext_signature != 0x29)
+			memcpy (bs->u.fat32.volume_name, "NO NAME    ", 11);
 		bs->u.fat32.ext_signature = 0x29;
 		bs->u.fat32.serial_number
 			= PED_CPU_TO_LE32 (fs_info->serial_number);
-		memcpy (bs->u.fat32.volume_name, "NO NAME    ", 11);
 		memcpy (bs->u.fat32.fat_name, "FAT32   ", 8);
 	} else {
 		bs->fat_length
@@ -365,10 +366,11 @@ fat_boot_sector_generate (FatBootSector** bsp, const PedFileSystem* fs)
 
 		bs->u.fat16.drive_num = 0x80;	/* _ALWAYS_ 0x80.  silly DOS */
 
+		if (bs->u.fat16.ext_signature != 0x29)
+			memcpy (bs->u.fat16.volume_name, "NO NAME    ", 11);
 		bs->u.fat16.ext_signature = 0x29;
 		bs->u.fat16.serial_number
 			= PED_CPU_TO_LE32 (fs_info->serial_number);
-		memcpy (bs->u.fat16.volume_name, "NO NAME    ", 11);
 		memcpy (bs->u.fat16.fat_name, "FAT16   ", 8);
 	}
 
diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index bf28c41..ce96765 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -643,6 +643,21 @@ create_resize_context (PedFileSystem* fs, const PedGeometry* new_geom)
 	new_fs_info->boot_sector = ped_malloc (new_geom->dev->sector_size);
 	memcpy (new_fs_info->boot_sector, fs_info->boot_sector,
 		new_geom->dev->sector_size);
+	if (fs_info->fat_type == FAT_TYPE_FAT16
+	    && new_fat_type == FAT_TYPE_FAT32) {
+		new_fs_info->boot_sector->u.fat32.ext_signature
+			= fs_info->boot_sector->u.fat16.ext_signature;
+		memcpy (new_fs_info->boot_sector->u.fat32.volume_name,
+			fs_info->boot_sector->u.fat16.volume_name, 11);
+	}
+	if (fs_info->fat_type == FAT_TYPE_FAT32
+	    && new_fat_type == FAT_TYPE_FAT16) {
+		new_fs_info->boot_sector->u.fat16.ext_signature
+			= fs_info->boot_sector->u.fat32.ext_signature;
+		new_fs_info->boot_sector->u.fat16.empty_1 = 0;
+		memcpy (new_fs_info->boot_sector->u.fat16.volume_name,
+			fs_info->boot_sector->u.fat32.volume_name, 11);
+	}
 	new_fs_info->info_sector = NULL;
 	if (fs_info->fat_type == FAT_TYPE_FAT32)
 	{
-- 
2.43.0


From ba0960914eaf15463cdfde8e2aa6a8306bc0f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:27 +0000
Subject: [PATCH 90/96] fix: gpt: keep the place of the backup when duplicating
 a table

---
 libparted/labels/gpt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index c095c93..f5db866 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -629,6 +629,7 @@ gpt_duplicate (const PedDisk *disk)
   ped_geometry_init (&new_disk_data->data_area, disk->dev,
                      old_disk_data->data_area.start,
                      old_disk_data->data_area.length);
+  new_disk_data->AlternateLBA = old_disk_data->AlternateLBA;
   new_disk_data->entry_count = old_disk_data->entry_count;
   new_disk_data->uuid = old_disk_data->uuid;
   new_disk_data->pmbr_boot = old_disk_data->pmbr_boot;
-- 
2.43.0


From e6427246319b0410f3382e609728fac2852b2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:27 +0000
Subject: [PATCH 91/96] fix: gpt: account for the table's own number of entries
 when reading it

---
 libparted/labels/gpt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index f5db866..4a758a7 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1103,6 +1103,10 @@ gpt_read (PedDisk *disk)
   if (!_parse_header (disk, gpt, &write_back))
     goto error_free_gpt;
 
+  /* The number of entries, and so the metadata, may be different now.  */
+  if (!ped_disk_delete_all (disk))
+    goto error_free_gpt;
+
   size_t ptes_bytes;
   void *ptes = gpt_read_PE_array (disk, gpt, &ptes_bytes);
   if (ptes == NULL)
-- 
2.43.0


From cdabaa6fe135b4df687c2a7aa87f59b32acc4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:38 +0000
Subject: [PATCH 92/96] fix: parted: print partition numbers above 99 without
 overrunning the buffer

---
 parted/parted.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index 06d2472..428d505 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1442,12 +1442,13 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         part->type & PED_PARTITION_METADATA)
                             continue;
 
-                    tmp = ped_malloc (4);
+                    /* a partition number can have three digits and more */
+                    tmp = ped_malloc (16);
 
                     if (part->num >= 0)
-                            sprintf (tmp, "%2d ", part->num);
+                            snprintf (tmp, 16, "%2d ", part->num);
                     else
-                            sprintf (tmp, "%2s ", "");
+                            snprintf (tmp, 16, "%2s ", "");
 
                     StrList *row = str_list_create (tmp, NULL);
                     free(tmp);
-- 
2.43.0


From 8533e849a9a317a1b06a5d67ea53b47f9d58efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:11 +0000
Subject: [PATCH 93/96] fix: amiga: use the geometry of a partition block to
 place the partition

---
 libparted/labels/rdb.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 2ff04ee..3e48fd7 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -483,6 +483,20 @@ _amiga_check_geometry (const struct RigidDiskBlock *rdb)
 	return 1;
 }
 
+/* The size of a cylinder of PARTITION, which can have a geometry of its own.
+   CYLBLOCKS is that of the disk's cylinders. */
+static PedSector _GL_ATTRIBUTE_PURE
+_amiga_part_cylblocks (const struct PartitionBlock *partition,
+		       PedSector cylblocks)
+{
+	uint32_t surfaces = PED_BE32_TO_CPU (partition->de_Surfaces);
+	uint32_t blocks = PED_BE32_TO_CPU (partition->de_BlocksPerTrack);
+
+	if (surfaces == 0 || blocks == 0 || surfaces > INT_MAX / blocks)
+		return cylblocks;
+	return (PedSector) surfaces * blocks;
+}
+
 /* We have already allocated a rdb, we are now reading it from the disk */
 static int
 amiga_read (PedDisk* disk)
@@ -532,7 +546,7 @@ amiga_read (PedDisk* disk)
 		i++, partblock = PED_BE32_TO_CPU(partition->pb_Next))
 	{
 		PedPartition *part;
-		PedSector start, end;
+		PedSector start, end, part_cylblocks;
 
 		/* Let's look for loops in the partition table */
 		if (_amiga_loop_check(partblock, partlist, i)) {
@@ -546,10 +560,11 @@ amiga_read (PedDisk* disk)
 			return 0;
 		}
 
+		part_cylblocks = _amiga_part_cylblocks (partition, cylblocks);
 		start = ((PedSector) PED_BE32_TO_CPU (partition->de_LowCyl))
-			* cylblocks;
+			* part_cylblocks;
 		end = (((PedSector) PED_BE32_TO_CPU (partition->de_HighCyl))
-			+ 1) * cylblocks - 1;
+			+ 1) * part_cylblocks - 1;
 
 		/* We can now construct a new partition */
 		if (!(part = ped_partition_new (disk, PED_PARTITION_NORMAL,
@@ -670,7 +685,7 @@ amiga_write (const PedDisk* disk)
 	struct LinkedBlock *block;
 	struct PartitionBlock *partition;
 	PedPartition *part, *next_part;
-	PedSector cylblocks, last_hb;
+	PedSector cylblocks, part_cylblocks, last_hb;
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
@@ -805,9 +820,6 @@ amiga_write (const PedDisk* disk)
 	rdb->rdb_PartitionList = PED_CPU_TO_BE32(part ? part_num : LINK_END);
 	for (; part != NULL; part = next_part, block_num = next_num) {
 		PED_ASSERT(part->disk_specific != NULL);
-		PED_ASSERT(part->geom.start % cylblocks == 0);
-		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
-
 		next_part = _amiga_next_real_partition(disk, part);
 		next_num = _amiga_next_free_block(table, tab_size, block_num+1,
 						  IDNAME_PARTITION);
@@ -817,8 +829,18 @@ amiga_write (const PedDisk* disk)
 			partition->pb_Next = PED_CPU_TO_BE32(LINK_END);
 		else
 			partition->pb_Next = PED_CPU_TO_BE32(next_num);
-		partition->de_LowCyl = PED_CPU_TO_BE32(part->geom.start/cylblocks);
-		partition->de_HighCyl = PED_CPU_TO_BE32((part->geom.end+1)/cylblocks-1);
+		part_cylblocks = _amiga_part_cylblocks (partition, cylblocks);
+		if (part->geom.start % part_cylblocks
+		    || (part->geom.end + 1) % part_cylblocks) {
+			/* It was moved to cylinders of the disk. */
+			partition->de_Surfaces = rdb->rdb_Heads;
+			partition->de_BlocksPerTrack = rdb->rdb_Sectors;
+			part_cylblocks = cylblocks;
+		}
+		PED_ASSERT(part->geom.start % part_cylblocks == 0);
+		PED_ASSERT((part->geom.end + 1) % part_cylblocks == 0);
+		partition->de_LowCyl = PED_CPU_TO_BE32(part->geom.start/part_cylblocks);
+		partition->de_HighCyl = PED_CPU_TO_BE32((part->geom.end+1)/part_cylblocks-1);
 		_amiga_calculate_checksum(AMIGA(partition));
 		blocks[part->num] = block_num;
 	}
-- 
2.43.0


From 69f9222a9fd0bc792db27fa888f27133f08b820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:11 +0000
Subject: [PATCH 94/96] fix: msdos: removing the hidden flag does not make a
 second extended partition

---
 libparted/labels/dos.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 5ac3bf4..1cbc81e 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1726,6 +1726,14 @@ msdos_partition_set_flag (PedPartition* part,
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
 	{
+		/* The entry would be that of an extended partition.  */
+		if (dos_data->system == PARTITION_DOS_EXT_H && !state) {
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("Invalid type for this partition."));
+			return 0;
+		}
 		return dos_type_id_set_hidden(&dos_data->system, state);
 	}
 
-- 
2.43.0


From 0b8d065206841452e05fb15b24dce3b0003a773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:03 +0000
Subject: [PATCH 95/96] fix: a GPT with a single usable sector can be read

---
 libparted/labels/gpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 4a758a7..c1a424a 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -820,11 +820,11 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
 
   last_usable_if_grown = disk->dev->length - 2 - _ptes_sectors(disk, gpt);
 
-  if (last_usable <= first_usable
+  if (last_usable < first_usable
       || disk->dev->length < last_usable)
     return 0;
 
-  if (last_usable_if_grown <= first_usable
+  if (last_usable_if_grown < first_usable
       || disk->dev->length < last_usable_if_grown)
     return 0;
 
-- 
2.43.0


From de1bf99b4bdda04ba917665e9ac7720416171863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:39 +0000
Subject: [PATCH 96/96] fix: refuse Sun, PC98 and Amiga labels on devices too
 small to hold them

---
 libparted/labels/pc98.c | 9 +++++++++
 libparted/labels/rdb.c  | 9 +++++++++
 libparted/labels/sun.c  | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index d80be91..5eec3d5 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -177,6 +177,15 @@ pc98_alloc (const PedDevice* dev)
 {
 	PED_ASSERT (dev != NULL);
 
+	if (dev->length < (PedSector) dev->hw_geom.sectors * dev->hw_geom.heads) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("%s is too small for a PC98 disk label!"),
+			dev->path);
+		return NULL;
+	}
+
 	return _ped_disk_alloc (dev, &pc98_disk_type);
 }
 
diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 3e48fd7..2160638 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -361,6 +361,15 @@ amiga_alloc (const PedDevice* dev)
 	PED_ASSERT(dev != NULL);
 	cyl_size = dev->hw_geom.sectors * dev->hw_geom.heads;
 
+	if (dev->length <= MAX_RDB_BLOCK) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("%s is too small for an Amiga disk label!"),
+			dev->path);
+		return NULL;
+	}
+
 	if (!(disk = _ped_disk_alloc (dev, &amiga_disk_type)))
 		return NULL;
 
diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 336fc51..3694edc 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -178,6 +178,15 @@ sun_alloc (const PedDevice* dev)
 	PedSector	cyl_size = (PedSector) bios_geom->sectors * bios_geom->heads;
 	PED_ASSERT (cyl_size != 0);
 
+	if (dev->length < cyl_size) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("%s is too small for a Sun disk label!"),
+			dev->path);
+		goto error;
+	}
+
         disk = _ped_disk_alloc (dev, &sun_disk_type);
 	if (!disk)
 		goto error;
-- 
2.43.0

