#!/usr/bin/env python3
"""Regenerate /verif/data/fs: sparse copies of small file systems made by the standard tools.

Each file: u64 total 512-byte sectors, then (u64 sector, 512 bytes) for every non-zero sector kept.
Only the first 256 KiB and the last 64 KiB are kept unless 'full'.
"""
import os, struct, subprocess, sys, tempfile, shutil
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'fs')
def sh(*a, **k): subprocess.run(a, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **k)
M = 1 << 20
L = [
 ('ext2', 4*M, ['mke2fs', '-F', '-q', '-t', 'ext2']),
 ('ext3', 8*M, ['mke2fs', '-F', '-q', '-t', 'ext3', '-b', '1024']),
 ('ext4', 16*M, ['mke2fs', '-F', '-q', '-t', 'ext4', '-b', '4096']),
 ('btrfs', 128*M, ['mkfs.btrfs', '-q', '-f']),
 ('f2fs', 64*M, ['mkfs.f2fs', '-q', '-f']),
 ('xfs', 320*M, ['mkfs.xfs', '-q', '-f']),
 ('jfs', 20*M, ['mkfs.jfs', '-q', '-f']),
 ('nilfs2', 160*M, ['mkfs.nilfs2', '-q', '-f']),
 ('reiserfs', 40*M, ['mkfs.reiserfs', '-q', '-f', '-f']),
 ('udf', 4*M, ['mkudffs', '-b', '512']),
 ('udf2k', 8*M, ['mkudffs', '-b', '2048']),
 ('swap', 4*M, ['mkswap']),
 ('fat12', 2*M, ['mkfs.fat', '-F', '12']),
 ('fat16', 10*M, ['mkfs.fat', '-F', '16', '-s', '1']),
 ('fat32', 40*M, ['mkfs.fat', '-F', '32', '-s', '1']),
 ('hfs', 2*M, ['mkfs.hfs']),
 ('hfsplus', 4*M, ['mkfs.hfsplus']),
 ('hfsx', 4*M, ['mkfs.hfsplus', '-s']),
 ('minix', 1*M, ['mkfs.minix']),
 ('cramfs', 0, None),
]
FULL = {'fat12', 'fat16', 'fat32', 'hfs', 'hfsplus', 'hfsx'}
def main():
    os.makedirs(OUT, exist_ok=True)
    for name, size, cmd in L:
        if not cmd: continue
        with tempfile.TemporaryDirectory() as d:
            img = d + '/x'
            open(img, 'wb').truncate(size)
            try: sh(*cmd, img, env=dict(os.environ, PATH=os.environ['PATH'] + ':/usr/sbin:/sbin'))
            except Exception as e: print(name, e); continue
            if name.startswith('fat'):
                for i in range(5):
                    open(d + '/f%d' % i, 'wb').write(bytes([65 + i]) * (700 * (i + 1)))
                    try: sh('mcopy', '-i', img, d + '/f%d' % i, '::F%d.TXT' % i); sh('mmd', '-i', img, '::DIR%d' % i); sh('mcopy', '-i', img, d + '/f%d' % i, '::DIR%d/long name %d.text' % (i, i))
                    except Exception as e: print(e)
            if name == 'hfs':
                e = dict(os.environ, HOME=d)
                sh('hmount', img, env=e)
                for i in range(5):
                    open(d + '/f%d' % i, 'wb').write(bytes([65 + i]) * (700 * (i + 1)))
                    sh('hcopy', '-r', d + '/f%d' % i, ':', env=e); sh('hmkdir', ':dir%d' % i, env=e)
                sh('humount', env=e)
            b = open(img, 'rb').read(); n = len(b) // 512
            with open(OUT + '/' + name, 'wb') as o:
                o.write(struct.pack('<Q', n)); k = 0
                for s in range(n):
                    if name not in FULL and not (s < 512 or s >= n - 128): continue
                    x = b[512*s:512*s+512]
                    if any(x): o.write(struct.pack('<Q', s) + x); k += 1
            print(name, n, k)
main()
