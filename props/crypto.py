import ircheck, os, facts
def _ref(name): return open(os.path.join(ircheck.REFDIR, name)).read()
NI = ['-msse4.2', '-msha']
# the ARM variants are lowered with the host's library headers
ARM = ['--target=aarch64-linux-gnu', '-march=armv8-a+crypto', '-D__x86_64__', '-DHWCAP_SHA2=64', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13']
SHIM = [a[2:] for a in facts.clang_args() if a.startswith('-I') and 'clang/18' not in a]

def C01(c):
    """SHA-512"""
    ir = ircheck.IR(c)
    I = []
    for a, b in [(0, 0), (64, 0), (111, 0), (112, 0), (127, 0), (128, 0), (239, 0), (240, 0), (256, 0), (1, 127), (1, 144), (100, 28), (100, 44), (100, 300), (128, 128), (127, 1), (127, 17), (64, 64), (5, 11), (130, 126), (300, 0), (255, 150), (1, 126), (100, 27), (64, 63)]:
        I.append(('SHA512', 'messages of %d bytes written in pieces of %d and %d' % (a + b, a, b),
                  'SHA512 h; h.Write(in, %d); h.Write(in + %d, %d); h.Finalize(out);' % (a, a, b) if b else 'SHA512 h; h.Write(in, %d).Finalize(out);' % a,
                  'ref::hash<uint64_t>(out, in, %d);' % (a + b)))
    I.append(('SHA512::Reset', 'reuse after Reset', 'SHA512 h; h.Write(in, 77); h.Reset().Write(in, 20); h.Finalize(out);', 'ref::hash<uint64_t>(out, in, 20);'))
    I.append(('SHA512::Size', 'Size() after two writes', 'SHA512 h; h.Write(in, 77).Write(in, 200); uint64_t n = h.Size(); memcpy(out, &n, 8);', 'uint64_t n = 277; memcpy(out, &n, 8);'))
    ir.equal('src/sha512.cpp', [('sha512::Transform', 'Transform', 'Transform'), ('SHA512::SHA512', 'SHA512C2', 'SHA512C2'), ('SHA512::Write', 'SHA5125Write', 'SHA5125Write'), ('SHA512::Finalize', 'SHA5128Finalize', 'SHA5128Finalize'), ('SHA512::Reset', 'SHA5125Reset', 'SHA5125Reset')],
             _ref('sha512.cpp'), 'SHA-512 as defined in FIPS 180-4', keep=['Transform', 'SHA5125Write', 'SHA5128Finalize', 'SHA5125Reset', 'SHA512C2'], instances=I)
    ir.done()

def C02(c):
    """SHA-256 (x86 SHA extensions)"""
    ir = ircheck.IR(c)
    L = list(range(0, 131)) + [183, 184, 185, 191, 192, 200, 255, 256, 311, 312, 320, 512, 575, 576, 1024, 1079, 1080]
    ir.equal('src/sha256_ni.cpp', [('compress_digest', 'compress_digest', 'compress_digest'), ('sha256_ni', '_Z9sha256_niPhPKhm', '_Z9sha256_niPhPKhm')],
             '#define PACKED\n#define NAME sha256_ni\n' + _ref('sha256_blocks.cpp'), 'SHA-256 as defined in FIPS 180-4', keep=['compress_digest'], flags=NI,
             instances=[('sha256_ni', 'messages of %d bytes' % n, 'sha256_ni(out, in, %d);' % n, 'ref::hash<uint32_t>(out, in, %d);' % n) for n in L])
    ir.done()
def C03(c):
    """iterated SHA-256 (x86 SHA extensions)"""
    ir = ircheck.IR(c)
    N = [0, 1, 2, 3, 4, 5, 8]
    ir.equal('src/sha256_ni_rec.cpp', [('recursive_sha256_ni', 'recursive_sha256_niPhm', '_Z3one'), ('recursive_sha256_ni_x2', 'recursive_sha256_ni_x2', '_Z3two')],
             _ref('sha256_rec.cpp'), 'the n-fold iteration of SHA-256 (of each 32-byte half for the double variant)', flags=NI,
             instances=[('recursive_sha256_ni', '%d iterations' % n, 'recursive_sha256_ni(out, %d);' % n, 'ref::iterate<uint32_t>(out, %d);' % n) for n in N] +
                       [('recursive_sha256_ni_x2', '%d iterations' % n, 'recursive_sha256_ni_x2(out, %d);' % n, 'ref::iterate<uint32_t>(out, %d); ref::iterate<uint32_t>(out + 32, %d);' % (n, n)) for n in N])
    ir.done()
def C06(c):
    """SHA-256 (ARM crypto extensions), single and iterated"""
    ir = ircheck.IR(c)
    L = list(range(0, 131)) + [183, 184, 185, 191, 192, 200, 255, 256, 311, 312, 320, 512, 575, 576, 1024, 1079, 1080]
    ir.equal('src/sha256_arm.cpp', [('compress_digest', 'compress_digest', 'compress_digest'), ('sha256_arm', '_Z10sha256_armPhPKhm', '_Z10sha256_armPhPKhm')],
             '#define NAME sha256_arm\n' + _ref('sha256_blocks.cpp'), 'SHA-256 as defined in FIPS 180-4', keep=['compress_digest'], flags=ARM,
             instances=[('sha256_arm', 'messages of %d bytes' % n, 'sha256_arm(out, in, %d);' % n, 'ref::hash<uint32_t>(out, in, %d);' % n) for n in L])
    N = [0, 1, 2, 3, 4, 5, 8]
    ir.equal('src/sha256_arm_rec.cpp', [('recursive_sha256_arm', 'recursive_sha256_armPhm', '_Z3one'), ('recursive_sha256_arm_x2', 'recursive_sha256_arm_x2', '_Z3two')],
             _ref('sha256_rec.cpp'), 'the n-fold iteration of SHA-256 (of each 32-byte half for the double variant)', flags=ARM,
             instances=[('recursive_sha256_arm', '%d iterations' % n, 'recursive_sha256_arm(out, %d);' % n, 'ref::iterate<uint32_t>(out, %d);' % n) for n in N] +
                       [('recursive_sha256_arm_x2', '%d iterations' % n, 'recursive_sha256_arm_x2(out, %d);' % n, 'ref::iterate<uint32_t>(out, %d); ref::iterate<uint32_t>(out + 32, %d);' % (n, n)) for n in N])
    ir.done()
def C04(c):
    """8-lane AVX2"""
    ir = ircheck.IR(c)
    N = [0, 1, 8, 32, 44, 54, 55]
    ir.equal('src/sha256_avx2.cpp', [], '', 'eight independent SHA-256 hashes', flags=['-mavx2'], ignore='store to arg1', include=SHIM,
             instances=[('sha256_avx2_64_x8', 'eight messages of %d bytes' % n, 'sha256_avx2_64_x8(out, in, %d);' % n,
                         'for(int i = 0; i < 8; ++i) ref::hash<uint32_t>(out + 32 * i, in + 64 * i, %d);' % n) for n in N])
    ir.done()
def C05(c):
    """HMAC-SHA512"""
    ir = ircheck.IR(c)
    pre = '#include "%s/src/sha512.cpp"\n' % facts.REPO
    I = [('HMAC_SHA512', 'keys of %d and messages of %d bytes' % (k, n), 'HMAC_SHA512 h(in, %d); h.Write(in + 512, %d); h.Finalize(out);' % (k, n), 'ref::hmac512(out, in, %d, in + 512, %d);' % (k, n))
         for k, n in [(0, 0), (32, 16), (64, 64), (127, 19), (128, 24), (129, 5), (145, 37), (256, 32), (200, 300)]]
    ir.equal('src/hmac_sha512.cpp', [('HMAC_SHA512::HMAC_SHA512', 'HMAC_SHA512C2', 'HMAC_SHA512C2'), ('HMAC_SHA512::Finalize', 'HMAC_SHA5128Finalize', 'HMAC_SHA5128Finalize')], _ref('hmac.cpp'), 'HMAC-SHA-512 as defined in RFC 2104',
             keep=['SHA5125Write'], instances=I, ipre=pre)
    ir.done()
