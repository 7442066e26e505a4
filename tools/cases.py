"""Harnesses (H) and, per property (P), the configurations explored in each tier."""
ASSUME = [
 'x86-64 Linux ABI, clang 18 -O1 IR of the sources; the sampled paths are replayed in a g++ -O1 AddressSanitizer build of the same sources',
 'logging (spdlog) has no effect; exception texts are not modelled, only exception types',
 'operator new throws std::bad_alloc above 64 KiB (also in the native replay)',
]
H = {
 'c01': dict(file='c01_c03_decomp', covers=['valid']),
}
def C(h, tlim=None, jobs=4, covers=None, opts=None, **args):
    d = dict(h=h, args=args, jobs=jobs)
    if tlim: d['time'] = tlim
    if covers is not None: d['covers'] = covers
    if opts: d['opts'] = opts
    return d
NA = {}
METHOD = {
 'C01': 'Compressed bytes symbolic; every row the reader returns is compared with an independent RLE decoder, and every well formed stream must be decoded.',
 'C02': 'Compressed bytes symbolic; compared with an independent RDC decoder.',
 'C03': 'Compressed bytes symbolic, corrupt ones included: memory safety on every path, exception exactly for corrupt rows, termination.',
 'C04': 'Header bytes symbolic field by field; each property compared with the documented bytes.',
 'C06': 'Page types, block counts, declared row count, mix row count, subheader kinds and row bytes symbolic; the rows delivered are compared with the rows laid out.',
 'C07': 'A symbolic call sequence with symbolic counts against a model of the row sequence.',
 'C08': 'As C07, counting sink notifications.',
 'C24': 'As C07 with moves in the sequence, and probes of moved-from and default readers.',
 'C13': 'The stored number symbolic; the calendar value compared with an independent day/second decomposition (days-from-civil).',
}
P = {}
P['C01'] = dict(bounds='one compressed row at the end of the page: any compressed bytes of length N into rows of length R, for (R,N) as in the cases, 32-bit little-endian layout plus both-endian/64-bit spot layouts',
  outside='longer compressed rows (more than N bytes, except for a concrete leading copy), other row lengths',
  quick=[C('c01', comp=1, what=1, R=10, N=5), C('c01', comp=1, what=1, R=100, N=3), C('c01', comp=1, what=1, R=700, N=2), C('c01', comp=1, what=1, R=4150, N=2, n0=15), C('c01', comp=1, what=1, R=21, N=4, L=3), C('c01', comp=1, what=1, R=72, N=66, pre=60), C('c01', comp=1, what=1, R=10, N=2, N2=2, rows=2), C('c01', comp=1, what=1, R=70, N=2, N2=1, rows=2)],
  thorough=[C('c01', comp=1, what=1, R=10, N=5), C('c01', comp=1, what=1, R=10, N=6), C('c01', comp=1, what=1, R=100, N=4), C('c01', comp=1, what=1, R=700, N=3), C('c01', comp=1, what=1, R=4100, N=3), C('c01', comp=1, what=1, R=21, N=4, L=3), C('c01', comp=1, what=1, R=21, N=4, L=6), C('c01', comp=1, what=1, R=72, N=66, pre=60), C('c01', comp=1, what=1, R=10, N=2, N2=2, rows=2), C('c01', comp=1, what=1, R=10, N=3, N2=2, rows=2), C('c01', comp=1, what=1, R=70, N=2, N2=1, rows=2)],
)
P['C02'] = dict(bounds='one compressed row, and two consecutive ones: any compressed bytes of length N (N2) into rows of length R, for (R,N) as in the cases', outside='longer compressed rows (more than N bytes, except for a concrete leading copy), other row lengths',
  quick=[C('c01', comp=2, what=1, R=10, N=5), C('c01', comp=2, what=1, R=24, N=6), C('c01', comp=2, what=1, R=100, N=5), C('c01', comp=2, what=1, R=30, N=12, pre=6), C('c01', comp=2, what=1, R=300, N=12, pre=6), C('c01', comp=2, what=1, R=12, N=6, N2=6, rows=2), C('c01', comp=2, what=1, R=24, N=5, L=3)],
  thorough=[C('c01', comp=2, what=1, R=10, N=6), C('c01', comp=2, what=1, R=24, N=7), C('c01', comp=2, what=1, R=100, N=6), C('c01', comp=2, what=1, R=300, N=5), C('c01', comp=2, what=1, R=30, N=12, pre=6), C('c01', comp=2, what=1, R=300, N=12, pre=6), C('c01', comp=2, what=1, R=4200, N=11, pre=5), C('c01', comp=2, what=1, R=300, N=24, pre=16, L=3), C('c01', comp=2, what=1, R=12, N=6, N2=6, rows=2), C('c01', comp=2, what=1, R=24, N=7, N2=7, rows=2), C('c01', comp=2, what=1, R=24, N=6, L=5)])
P['C03'] = dict(bounds='as C01 and C02: every compressed byte sequence, valid or not, of length N for rows of length R', outside='as C01 and C02',
  quick=[C('c01', comp=1, what=2, R=10, N=5), C('c01', comp=1, what=2, R=100, N=3), C('c01', comp=2, what=2, R=24, N=6), C('c01', comp=2, what=2, R=30, N=12, pre=6), C('c01', comp=1, what=2, R=10, N=2, N2=2, rows=2), C('c01', comp=2, what=2, R=12, N=6, N2=6, rows=2)],
  thorough=[C('c01', comp=1, what=2, R=10, N=6), C('c01', comp=1, what=2, R=100, N=4), C('c01', comp=1, what=2, R=700, N=3), C('c01', comp=2, what=2, R=24, N=7), C('c01', comp=2, what=2, R=100, N=6), C('c01', comp=2, what=2, R=30, N=12, pre=6), C('c01', comp=1, what=2, R=10, N=3, N2=2, rows=2), C('c01', comp=1, what=2, R=70, N=2, N2=1, rows=2), C('c01', comp=2, what=2, R=24, N=7, N2=7, rows=2), C('c01', comp=1, what=2, R=21, N=4, L=3), C('c01', comp=2, what=2, R=24, N=6, L=6)])
H['c04'] = dict(file='c04_header', covers=['opened'])
def c04(Ls, full):
    r = []; RF = ['refused']; OR = ['opened', 'refused']
    for i, L in enumerate(Ls):
        a = lambda covers=None, **k: r.append(C('c04', jobs=1, covers=covers, L=L, **k))
        for m in (0, 8, 16, 24): a(OR, f=0, m=m)
        for f, w in ((1, 64), (2, 8), (3, 8), (4, 16), (5, 16), (6, 16), (7, 16), (8, 16)):
            if w == 8: a(f=f)
            else:
                for b in (0, 1): a(f=f, e=(5 if full and w == 64 else 6 if full else 4), blank=b)
        a(f=9); a(OR, f=10); a(f=11); a(RF, f=12)
        for second in (0, 1):
            for q in (0, 1): a(f=13, second=second, q=q)
    return r
P['C04'] = dict(bounds='per header field, every value of it with the other fields fixed: 8 consecutive bytes of the magic number at a time; 8-byte text fields completely, 16- and 64-byte ones with any 4 (thorough: 5 or 6) bytes at either end around blanks or text; every encoding byte; header lengths 0, 287..300, 1024, 2048 and page lengths 1536..4096; every page count; every value of the four marker bytes; every length of a file that ends within its header; created and modified times: every whole second of the supported years (1400-01-02 to 9999-12-30) except exact half days; in all eight layouts (32/64 bit, both byte orders, both alignments)',
  outside='several fields symbolic at once, longer symbolic text, fractional seconds (C13)', quick=c04(range(8), 0), thorough=c04(range(8), 1))
H['c06'] = dict(file='c06_pages', covers=['data page', 'mix page', 'page of another kind'])
MC = ['meta page with row subheaders']
P['C06'] = dict(bounds='a first metadata (or mix) page and NP (quick 2, thorough 3) further pages, each of any page type value, any block count 0..B (B = 2, thorough also 3), any subheader count of data pages, any mix row count 0..B, any declared row count 0..(NP+1)B+1, symbolic row bytes; for compressed tables (RLE and RDC) up to 2 row subheaders per meta page with any compression and type byte, compressed, empty or full length; in the layouts listed in the cases',
  outside='more pages or rows per page, other row lengths, row subheaders mixed with column metadata beyond the first page',
  quick=[C('c06', NP=2, B=2), C('c06', NP=2, B=2, first=1, L=3), C('c06', NP=1, B=2, comp=1, dsub=2, c4=1, covers=MC), C('c06', NP=1, B=2, comp=2, dsub=2, c4=1, L=7, covers=MC), C('c06', NP=2, B=2, first=1, L=4, R=13)],
  thorough=[C('c06', NP=3, B=2), C('c06', NP=3, B=2, L=1), C('c06', NP=2, B=3, L=2, first=1), C('c06', NP=2, B=2, first=1, L=3), C('c06', NP=3, B=2, first=1, L=5), C('c06', NP=2, B=2, comp=1, dsub=2, c4=1, L=6, covers=MC), C('c06', NP=2, B=1, comp=2, dsub=2, c4=1, L=7, covers=MC), C('c06', NP=1, B=2, comp=1, dsub=3, c4=1, covers=MC), C('c06', NP=2, B=2, first=1, L=4, R=13)])
CALLS = 'reading single rows, chunks of any size_t length, rows without sink, skipping any size_t count, reading all, announcing the end of data, moving the reader by construction and by assignment to an empty reader and to one in use'
SHAPES = 'five fixed page sequences (uncompressed meta/data/empty data/amd/mix; RLE over several meta pages; mix first page; empty table; RDC meta then data) with 0 to 5 rows, row bytes partly symbolic'
H['c07'] = dict(file='c07_api', covers=['moved', 'ran out of rows'])
def api(what, K, Ks=()):
    r = [C('c07', what=what, shape=s, L=l, K=K, jobs=2) for s, l in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 7))]
    r.append(C('c07', what=what, shape=0, L=4, K=K, RC=1, jobs=2)); r.append(C('c07', what=what, shape=0, L=5, K=K, RC=4, jobs=2)); r.append(C('c07', what=what, shape=1, L=6, K=K, RC=4, jobs=2))
    return r
def apiprop(what, q, t):
    return dict(quick=api(what, q), thorough=api(what, t), bounds='every sequence of %d calls (thorough: %d) out of %s, on %s' % (q, t, CALLS, SHAPES), outside='longer call sequences, other files; failing sources (C18)')
P['C07'] = apiprop(1, 4, 6); P['C08'] = apiprop(2, 4, 6); P['C24'] = apiprop(4, 4, 6)

H['c13'] = dict(file='c13_dates', covers=[])
SUP = dict(lo=-204528, hi=2936547)
def c13(windows, js, Ls):
    c = lambda **k: C('c13', jobs=1, **k); r = []
    for L in Ls:
        for t in (4, 5): r.append(c(L=L, t=t))
        for q in (0, 1, 2, 3): r.append(c(L=L, t=1, q=q, **SUP)); r.append(c(L=L, t=3, q=q, **SUP))
    for L, j in js:
        for fs in (0, 1, 2):
            for q in (0, 1, 2, 3):
                if (fs, q) != (1, 2): r.append(c(L=L, t=2, q=q, fs=fs, j=j, **SUP)); r.append(c(L=L, t=3, q=q, fs=fs, j=j, **SUP))
    for n, (lo, hi) in enumerate(windows): r.insert(n, c(L=n % 8, t=0, lo=lo, hi=hi))
    return r
WQ = [(-1000, 1000), (-22000, -20001), (13000, 15000), (50000, 52000), (-204528, -203000), (2934800, 2936547), (-138100, -137000), (99500, 100500)]
def c13h(ws): return [C('c13', jobs=1, L=n % 8, t=6, lo=lo, hi=hi) for n, (lo, hi) in enumerate(ws)]
P['C13'] = dict(bounds='datetimes and times: every whole second, and every multiple of 1/8 s (thorough: also 1/64 s, the exactly representable fractions of a microsecond count) in the supported years 1400 to 9999, except fractions within half a second after noon; every missing value (any NaN); every number beyond 1e12; dates: every day number and every half day number in 8 windows of 1000-2000 days (thorough: 60 windows) covering the start and end of the supported years, 1582, 1904, 1960, 1999, 2100, 2232',
  outside='dates outside the windows, numbers that are not multiples of 1/64, numbers outside the supported years but below 1e12',
  assume=['round(n/86400) of a double n = k/2^j with |k| < 2^52 is the round-half-away of the exact quotient (DESIGN.md); the sign of zero is not modelled'],
  quick=c13(WQ, [(0, 3), (3, 3)], range(8)) + c13h([(0, 1000), (14000, 15000)]),
  thorough=c13(WQ + [(-200000 + 65000 * i, -198000 + 65000 * i) for i in range(48)], [(0, 3), (3, 3), (5, 6), (6, 1)], range(8)) + c13h([(0, 1000), (14000, 15000), (51000, 52000), (100000, 101000)]))

METHOD.update({
 'C05': 'The same symbolic rows, row counts and page types are laid out in two of the eight layouts; properties, row indices and cells read from both are compared for equality.',
 'C09': 'The accepted set, or the letters and lengths of the listed names, and the row bytes symbolic; columns and cells compared with those read without a filter.',
 'C10': 'Stored type byte, width and every character of the display format symbolic; the type compared with a table of SAS formats by kind.',
 'C11': 'Column offset and every byte of the row symbolic; bit pattern compared with one assembled from the column\'s own bytes.',
 'C12': 'Column offset, width and row bytes symbolic; text compared with the stored bytes up to the trailing padding.',
 'C15': 'Text block bytes and the reference (block, offset, length) of a name, label or format symbolic; and the placement of the name, attribute and label subheaders over pages; compared with an independent extraction.',
 'C16': 'Position of the signatures, neighbouring text bytes, lengths of creator and procedure symbolic; compared with an independent reading of the block, and the row decompressed accordingly.',
})
H['c05'] = dict(file='c05_layouts', covers=['row'])
c05 = [C('c05', jobs=1, A=0, B=b, comp=c, NP=2, w=3 + (b + c) % 4) for b in range(1, 8) for c in (0, 1, 2)]
P['C05'] = dict(bounds='the content of up to NP (quick 2, thorough 3) pages of rows after the metadata page, with symbolic page kinds, block counts, row count, mix row count and cell bytes; columns: 8-byte number, two-byte and one-byte integer, text, datetime, and a number of width 3 to 6; uncompressed, RLE and RDC; layout 0 against each of the other seven (thorough: all 28 pairs)',
  outside='other column mixes; longer files', quick=c05, thorough=[C('c05', jobs=1, A=a, B=b, comp=c, NP=3 if c == 0 else 2, w=3 + (a + b + c) % 4) for a in range(8) for b in range(a + 1, 8) for c in (0, 1, 2)])
H['c09'] = dict(file='c09_filter', covers=['some accepted'])
P['C09'] = dict(bounds='a table of five columns of different types (names A, B, AB, a, BA); any set of columns accepted by a user filter; any include list, exclude list, and both, of up to K names of up to 2 arbitrary characters (thorough: K up to 3, 3 characters)', outside='longer lists and names; stateful filters',
  quick=[C('c09', jobs=1, mode=0, L=l) for l in range(8)] + [C('c09', jobs=1, mode=1, K=2), C('c09', jobs=1, mode=2, K=2), C('c09', jobs=4, mode=3, K=2), C('c09', jobs=1, mode=1, K=1, len=3), C('c09', jobs=1, mode=2, K=1, len=3)],
  thorough=[C('c09', jobs=1, mode=0, L=l) for l in range(8)] + [C('c09', jobs=2, mode=1, K=2, len=3), C('c09', jobs=2, mode=2, K=2, len=3), C('c09', jobs=4, mode=3, K=2), C('c09', jobs=4, mode=2, K=3), C('c09', jobs=4, mode=1, K=3)])
H['c10'] = dict(file='c10_types', covers=['number', 'string', 'unknown'])
def c10(full): return [C('c10', jobs=1 if n < 9 else 4, n=n, L=l) for n in range(13 if full else 10) for l in (range(8) if full and n < 9 else [n % 8])]
P['C10'] = dict(bounds='one column between two others: every stored type byte, every width 0 to 12, every display format of 0 to 9 (thorough: 12) printable characters', outside='longer formats (none of the recognised ones is longer than 8 characters), wider columns', quick=c10(0), thorough=c10(1))
H['c11'] = dict(file='c11_cells', covers=[])
def c11(Ls, Rs): return [C('c11', jobs=1, t=1, w=w, R=R, comp=c, L=l, covers=['integer' if w < 3 else 'number']) for w in range(1, 9) for l in Ls for R in Rs for c in ((0, 1, 2) if l in (0, 3) else (0,))]
P['C11'] = dict(bounds='every byte of a row of 12 (thorough: 9, 12, 20) bytes, a column of every width 1 to 8 at every offset, in all eight layouts, in uncompressed rows and (layouts 0 and 3) RLE and RDC ones', outside='longer rows', quick=c11(range(8), [12]), thorough=c11(range(8), [9, 12, 20]))
def c12(Ls, full):
    r = []
    for l in Ls:
        r.append(C('c11', jobs=2, t=2, w=8, R=9, L=l, covers=['text']))
        for c in (1, 2): r.append(C('c11', jobs=2, t=2, w=8, R=8 if l else 10, L=l, comp=c, covers=['text']))
    for i, f in enumerate((0, 32, 97, 9, 200)):
        r.append(C('c11', jobs=2, t=2, w=40, wlo=30, R=44, L=i, fill=f, covers=['text']))
        if full: r.append(C('c11', jobs=4, t=2, w=511, wlo=505, R=512, L=i, fill=f, covers=['text'])); r.append(C('c11', jobs=4, t=2, w=257, wlo=250, R=260, L=i, fill=f, covers=['text']))
    return r
P['C12'] = dict(bounds='every byte of rows of 8 to 10 bytes, a text column of every width and offset within; and rows of 44 (thorough: 260 and 512) bytes of one repeated byte (NUL, blank, letter, tab, non-ASCII) whose first and last three bytes are arbitrary, with columns of width 30-40 (250-257, 505-511) at every offset; uncompressed, RLE and RDC', outside='other longer rows', quick=c12((0, 3, 6), 0), thorough=c12(range(8), 1))
H['c15'] = dict(file='c15_text', covers=[])
def c15(full):
    r = []
    for w in (0, 1, 2):
        for l in (range(8) if full else (w, 5 - w)):
            for T in ((7, 9) if full else (6,)):
                for f in (0, 1): r.append(C('c15', jobs=2, what=w, T=T, L=l, first=f, covers=['piece of text']))
    for l in range(8) if full else (0, 3, 6): r.append(C('c15', jobs=2, what=3, L=l, covers=['columns']))
    return r
P['C15'] = dict(bounds='a name, label or format reference with any block number, offset and length into text blocks with T (quick 6, thorough 7 and 9) arbitrary bytes; three columns whose name, attribute and label subheaders are spread over two metadata pages (meta or amd) at every split, with symbolic offsets and widths', outside='longer symbolic texts, more columns', quick=c15(0), thorough=c15(1))
H['c16'] = dict(file='c16_comp', covers=[])
def c16(full):
    r = [C('c16', jobs=2, mode=0, L=0, covers=['RLE', 'RDC']), C('c16', jobs=2, mode=2, L=1, covers=['RLE', 'RDC']), C('c16', jobs=2, mode=3, L=2, covers=['RLE', 'RDC'])]
    for i, W in enumerate((12, 2, 56) if not full else (12, 2, 11, 13, 20, 30, 56)): r.append(C('c16', jobs=2, mode=1, W=W, N=8 if i else 9, L=3 + i % 5, lm=0 if i else 1, covers=['RLE', 'RDC']))
    if full: r += [C('c16', jobs=2, mode=m, L=l, covers=['RLE', 'RDC']) for m in (0, 2, 3) for l in range(1, 8)]
    return r
P['C16'] = dict(bounds='a first text block of 64 bytes: either signature at every place among arbitrary neighbouring bytes; both signatures at every pair of places (overlapping too); 8 or 9 arbitrary bytes at fixed places; creator and procedure fields of every length 0 to 4 with arbitrary bytes for each kind of signature field; a second text block with either signature', outside='longer text blocks and names', quick=c16(0), thorough=c16(1))
METHOD['C19'] = 'Type of every column symbolic (of user-built columns, and stored type, width and format of a file\'s columns), names and row bytes symbolic; groups compared with the list filtered by an independent loop.'
H['c19'] = dict(file='c19_group', covers=['two of a type', 'unknown type'])
P['C19'] = dict(bounds='every list of N (quick 5, thorough 6) columns of any type, with repeated names, built by the user; and tables of 3 (thorough 4) columns of any stored type, width 1 to 9 and one of four formats', outside='longer lists',
  quick=[C('c19', jobs=2, mode=0, N=n) for n in (3, 4, 5)] + [C('c19', jobs=2, mode=1, N=3, L=l) for l in (0, 3, 6)],
  thorough=[C('c19', jobs=2, mode=0, N=n) for n in (3, 4, 5, 6)] + [C('c19', jobs=2, mode=1, N=3, L=l) for l in range(8)] + [C('c19', jobs=2, mode=1, N=4, L=l) for l in (0, 7)])
METHOD['C18'] = 'Number of bytes supplied, way of ending (end of file, early end of file, lasting or passing failure), what a short read leaves in the buffer, and the calls made are symbolic; the rows delivered compared with those of the complete pages.'
H['c18'] = dict(file='c18_source', covers=['end of data', 'header refused', 'failure'])
def c18(Ls, K): return [C('c18', jobs=2, shape=s, L=l, K=K if l in (0, 7) else 0) for l in Ls for s in range(5)]
P['C18'] = dict(bounds='five files of three pages (uncompressed, RLE, RDC, mix first page, metadata over two pages) in layouts 0, 3, 5, 7 (thorough: all); a source that supplies any number of bytes and then reports end of file when a read runs into it or at once, or fails for good or for once; short reads leave nothing, zeros or valid bytes behind; reading all rows, by row without sink, by skipping, and (layouts 0 and 7) any K (quick 2, thorough 3) calls with counts 0 to 3',
  outside='the std::ifstream source itself; longer files and call sequences; sources that break their own contract', quick=c18((0, 3, 5, 7), 2), thorough=c18(range(8), 3))

METHOD['C17'] = 'Groups of structural fields of an otherwise valid file symbolic (lengths, counts, offsets, types, signatures, references, in header, page headers, subheader pointers and subheaders); every path must end with a result or an exception, with all memory accesses in bounds, a bounded number of reads and rows, and every cell readable.'
H['c17'] = dict(file='c17_malformed', covers=[])
def c17(Ls, full):
    r = []; n = [0]; OP, RF = 'opened', 'refused'
    def a(cv, **k):
        for l in (Ls if full else [Ls[n[0] % len(Ls)]]): r.append(C('c17', jobs=2, covers=cv, L=l, **k))
        n[0] += 1
    for k in ((600, 1800, 3000) if full else (1800,)): a([OP, RF], g=0, i=k); a([OP, RF], g=16, i=k)
    a([OP, RF], g=17); a([OP, RF], g=1); a([OP, RF], g=1, mix=1); a([OP, RF], g=1, comp=1)
    for i in range(8): a([OP, RF], g=2, i=i); a([OP], g=3, i=i); a([OP], g=12, i=i)
    if full:
        for i in range(8): a([OP], g=2, i=i, comp=2); a([OP], g=2, i=i, mix=1); a([OP], g=12, i=i, comp=1); a([OP], g=3, i=i, comp=1)
    a([OP, RF], g=4); a([OP], g=4, comp=1); a([OP], g=4, comp=2); a([OP], g=4, mix=1)
    a([OP], g=5); a([OP], g=5, i=1); a([OP], g=5, i=2, comp=1); a([OP, RF], g=6)
    for i in range(3): a([OP], g=8, i=i)
    for i in range(3) if full else (1,): a([OP], g=7, i=i, **(dict(**{'from': 0}) if full else {}))
    for i in range(6) if full else (0, 3): a([OP], g=9, i=i, **(dict(**{'from': 0}) if full else {}))
    a([OP], g=10); a([OP], g=10, comp=1); a([OP], g=10, comp=2); a([OP, RF], g=11); a([OP, RF], g=11, mix=1)
    a([OP, RF], g=13); a([OP], g=13, comp=2)
    for i in range(7) if full else (6,): a([OP, RF], g=15, i=i)
    a([OP], g=14, comp=1); a([OP], g=14, comp=2); a([OP], g=18); a([OP], g=19); a([OP], g=19, comp=1); a([OP], g=19, comp=2)
    return r
P['C17'] = dict(bounds='a valid file of three pages (1000 bytes, 64-bit layouts 1600; three columns; uncompressed, RLE or RDC; meta or mix first page) in which one group of fields at a time takes every value: header length, page length, page count and markers; type, block count and subheader count of the first or second page; offset, length, kind of any one subheader pointer (and length, kind and signature together; two lengths and the count); any subheader signature; row length, row count, mix row count; column counts; column offset, width and type (also with the row length); any name, label or format reference (thorough: from offset 0, quick: from 60); text length; creator and procedure lengths; first two row subheaders of a data page; layouts alternate (thorough: all eight)',
  outside='several groups at once, more columns, other page sizes, files with other structure; corrupt compressed rows are C03, text content C15, early end C18', quick=c17((0, 3, 5, 6), 0), thorough=c17(range(8), 1))

METHOD['C14'] = 'Digits of day, hour, minute, second and fraction symbolic (year, month and leading digits fork), rendered by the real to_string with the real fmt library encoded as well; the text compared with the digits. Missing cells: every NaN and every unsupported number.'
H['c14'] = dict(file='c14_text', covers=[], real_fmt=True)
def c14(full):
    r = [C('c14', jobs=4, t=0, ylo=y, yhi=y + 59) for y in range(1880, 2120, 60)] + [C('c14', jobs=2, t=0, ylo=y, yhi=y) for y in (1400, 1582, 9999)]
    r += [C('c14', jobs=2, t=1, ylo=2024, yhi=2024, mlo=m, mhi=m) for m in (1, 2, 10, 12)] + [C('c14', jobs=4, t=1, f=1, hms=0, mlo=2, mhi=2)]
    r += [C('c14', jobs=2, t=2), C('c14', jobs=2, t=2, f=1, hms=0), C('c14', jobs=4, t=2, nh=4)] + [C('c14', jobs=2, t=2, nh=n, hms=0) for n in (3, 5, 7, 9)]
    for l in (range(8) if full else (0, 3, 6)): r += [C('c14', jobs=2, t=3, q=q, L=l) for q in (0, 1)] + [C('c14', jobs=2, t=4, ylo=1959, yhi=1961, L=l)]
    if full:
        r += [C('c14', jobs=4, t=0, ylo=y, yhi=min(y + 399, 9999)) for y in range(1400, 10000, 400)]
        r += [C('c14', jobs=4, t=1, ylo=y, yhi=y) for y in (1400, 1600, 1900, 1999, 2000, 2100, 9999)] + [C('c14', jobs=4, t=1, f=1, hms=0), C('c14', jobs=8, tlim=400, t=2, f=1), C('c14', jobs=4, t=2, nh=3), C('c14', jobs=4, t=2, nh=5), C('c14', jobs=2, t=2, nh=6, f=1, hms=0)]
        r += [C('c14', jobs=4, t=4, ylo=y, yhi=y + 99) for y in (1600, 1900, 2000)]
    return r
P['C14'] = dict(bounds='every date of 1400, 1582, 9999 and 1880 to 2119 (thorough: 1400 to 9999); datetimes of every second of days of 2024 (thorough: seven whole years) and every microsecond of one second of a day; times of every second below 100 hours and of 1000 to 9999 hours, every hour below 10^9 with one minute and second, every microsecond of one second (thorough: of every second below 100 hours); missing (any NaN) and unsupported (1e12 and beyond) cells of the three types; date cells of 1959 to 1961',
  outside='fractions together with every date; negative durations; text of numbers', quick=c14(0), thorough=c14(1))
METHOD['C22'] = 'The real sinks write through the real fmt library and a real ostream; their output is read back by an independent CSV reader and compared field by field with the values of the columns. Bytes of names, text cells and integers symbolic; dates through a table of stored numbers; missing numbers through every NaN.'
H['c22'] = dict(file='c22_csv', covers=['written'], real_fmt=True, ios=True, flags=['-I@V/harness/stubs_fs'])
def c22(t):
    r = [C('c22', jobs=2, m=0, n=n) for n in (1, 2)] + [C('c22', jobs=4, m=0, n=3, L=3), C('c22', jobs=2, m=0, n=3, print=1), C('c22', jobs=2, m=1, w=2), C('c22', jobs=4, m=1, w=3, L=5), C('c22', jobs=2, m=1, w=3, print=1)]
    r += [C('c22', jobs=1, m=2, at=at, r=i, L=l) for at in (0, 2) for i, l in ((0, 0), (1, 1))] + [C('c22', jobs=2, m=2, at=3, a=100, b=0xff), C('c22', jobs=1, m=2, print=1), C('c22', jobs=1, m=2, at=2, r=1, print=1)]
    r += [C('c22', jobs=1, m=3, c=c, r=c & 1, L=c) for c in range(7)]
    if t: r += [C('c22', jobs=8, m=0, n=4, tlim=300), C('c22', jobs=8, m=0, n=5, print=1, tlim=300), C('c22', jobs=8, m=1, w=5, tlim=600), C('c22', jobs=8, m=1, w=4, print=1, tlim=300)] + [C('c22', jobs=2, m=2, at=at, r=i, a=a, b=b, d=d, L=l) for at in (0, 2, 3) for i in (0, 1) for a, b, d in ((0, 0, 0), (255, 255, 255), (128, 0, 128), (127, 255, 127)) for l in (0, 7)]
    return r
P['C22'] = dict(bounds='tables of two rows: two names of up to 3 (thorough: 4, print 5) arbitrary bytes; text cells of two columns of up to 3 (thorough: 5) arbitrary bytes; every 1-byte integer and every value of one byte of a 2-byte integer; dates, datetimes and times from 256 stored numbers; numbers: every NaN and seven chosen values',
  outside='the digits of other numbers and the text of dates (boost stream output is replaced by a code word), more than six columns', quick=c22(0), thorough=c22(1))
METHOD['C23'] = 'The real command line program with its real ifstream source and csv sink, on a stand-in for std::basic_fstream that records the files opened; the bytes of the file name symbolic.'
H['c23'] = dict(file='c23_csvname', covers=[], real_fmt=True, ios=True, flags=['-I@V/harness/stubs_fs'])
def c23(t):
    r = [C('c23', jobs=1, n=n, covers=['converted']) for n in (list(range(1, 13)) + ([14, 16, 18, 20, 24] if t else []))]
    r += [C('c23', jobs=1, two=1, n=n, covers=['converted']) for n in ((3, 6) if not t else range(1, 12))]
    r += [C('c23', jobs=1, mode=m, n=n, covers=['converted']) for m in (1, 2) for n in (1, 3, 7)] + [C('c23', jobs=1, mode=1, n=2, lines=1, covers=['converted']), C('c23', jobs=1, miss=1, n=5), C('c23', jobs=1, miss=1, n=2, mode=1), C('c23', jobs=1, miss=1, n=2, mode=2)]
    return r
P['C23'] = dict(bounds='every file name of 1 to 12 bytes (thorough: up to 24), alone and after another name, of an existing and of a missing input; a table of one row',
  outside='parsing of the command line (docopt is replaced), names that denote the same file by another path, symbolic links', quick=c23(0), thorough=c23(1))

METHOD['C20'] = 'The real sink.hpp, import_datetime.cpp and reader.cpp of the Python module on a small stand-in for Boost.Python and the Python C API that records calls and counts references; a symbolic call sequence, in lockstep with a plain reader; the chunks, tables and rows compared with what the plain reader delivered.'
H['c20'] = dict(file='c20_py', covers=['read'], real_fmt=True, ios=True, flags=['-I@V/harness/stubs_py', '-I@V/harness/stubs_fs', '-I@R/python/pycppsas7bdat/cpp'])
def c20(t):
    r = [C('c20', jobs=4, kind=0, K=3, NR=5, size=3, n=3, covers=['chunk']), C('c20', jobs=2, kind=0, K=2, NR=6, size=7, n=4, L=3), C('c20', jobs=2, kind=0, K=0, NR=9, size=10), C('c20', jobs=2, kind=1, K=3, NR=4, n=3, covers=['table']), C('c20', jobs=2, kind=2, K=3, NR=4, n=3, L=5)]
    r += [C('c20', jobs=1, kind=(m + k) % 3, K=0, NR=1 + k, m=m, size=2) for m in (1, 2, 3, 4) for k in ((0, 1) if m == 2 else (0,))] + [C('c20', jobs=1, kind=k, K=0, NR=1, m=5, c=c, size=1) for k, c in ((0, 0), (1, 8), (2, 16), (0, 24), (1, 16), (2, 8))]
    r += [C('c20', jobs=2, kind=1, K=0, NR=2, inc=1), C('c20', jobs=2, kind=2, K=0, NR=2, exc=1), C('c20', jobs=1, kind=0, K=2, NR=0, size=2)]
    if t: r += [C('c20', jobs=8, kind=0, K=4, NR=6, size=4, n=3, tlim=600), C('c20', jobs=8, kind=0, K=3, NR=9, size=5, n=9, tlim=400), C('c20', jobs=8, kind=1, K=4, NR=5, n=4, tlim=300), C('c20', jobs=8, kind=2, K=4, NR=5, n=4, tlim=300), C('c20', jobs=4, kind=0, K=0, NR=20, size=21)] + [C('c20', jobs=2, kind=k, K=0, NR=1, m=m, size=1, L=l) for k in (0, 1, 2) for m in (1, 2, 3, 4) for l in (0, 3, 6)]
    return r
P['C20'] = dict(bounds='tables of up to 6 rows and 8 columns of all types (9 rows when read at once), chunk sizes 1 to 3 (7 and 10 in single configurations), every sequence of up to 3 calls of read_row, read_rows(n), skip(n), read_all, end_of_data and flush, then read_all (thorough: 4 calls, n up to 9, 20 rows); one row with arbitrary text, integer and number bytes, and dates, datetimes and times from 256 stored numbers; every NaN; every include and every exclude list',
  outside='the Python interpreter and Boost.Python themselves, exceptions raised by Python methods, tables whose columns share a name, pandas code in sink.py', quick=c20(0), thorough=c20(1))
METHOD['C21'] = 'The real R sinks, reader.cpp, filter.cpp and wrap_properties.hpp on a small stand-in for Rcpp whose vectors are shared by reference like R objects; a symbolic call sequence, in lockstep with a plain reader; what is handed over compared with what the plain reader delivered, and compared again at the end.'
H['c21'] = dict(file='c21_r', covers=['read'], real_fmt=True, ios=True, flags=['-I@V/harness/stubs_r', '-I@V/harness/stubs_fs', '-I@R/R/CPPSAS7BDAT/src'])
def c21(t):
    r = [C('c21', jobs=4, kind=0, K=3, NR=5, size=3, n=2, covers=['chunk']), C('c21', jobs=2, kind=0, K=2, NR=6, size=7, n=4, L=3), C('c21', jobs=2, kind=0, K=0, NR=9, size=10), C('c21', jobs=4, kind=1, K=3, NR=4, n=2, covers=['table']), C('c21', jobs=2, kind=2, K=3, NR=3, n=2, L=5)]
    r += [C('c21', jobs=1, kind=m % 3, K=0, NR=1, m=m, size=1) for m in (1, 2, 3, 4)] + [C('c21', jobs=1, kind=2, K=0, NR=1, m=1), C('c21', jobs=1, kind=1, K=0, NR=1, m=1)] + [C('c21', jobs=1, kind=k, K=0, NR=1, m=5, c=c, size=1) for k, c in ((0, 0), (1, 8), (2, 16), (0, 24), (1, 0), (2, 0), (2, 8), (1, 16), (2, 24))]
    r += [C('c21', jobs=2, kind=1, K=0, NR=2, inc=1), C('c21', jobs=2, kind=2, K=0, NR=2, exc=1), C('c21', jobs=1, kind=0, K=2, NR=0, size=2)]
    if t: r += [C('c21', jobs=8, kind=0, K=4, NR=6, size=4, n=3, tlim=900), C('c21', jobs=8, kind=0, K=3, NR=9, size=5, n=9, tlim=600), C('c21', jobs=8, kind=1, K=4, NR=5, n=4, tlim=400), C('c21', jobs=8, kind=2, K=4, NR=5, n=4, tlim=400), C('c21', jobs=4, kind=0, K=0, NR=16, size=17)] + [C('c21', jobs=2, kind=k, K=0, NR=1, m=m, size=1, L=l) for k in (0, 1, 2) for m in (1, 2, 3, 4) for l in (0, 3, 6)]
    return r
P['C21'] = dict(bounds='tables of up to 6 rows and 8 columns of all types (9 rows when read at once), chunk sizes 1 to 3 (7 and 10 in single configurations), every sequence of up to 3 calls of read_row, read_rows(n), skip(n), read_all and end_of_data, then read_all (thorough: 4 calls, n up to 9, 16 rows); one row with arbitrary text, integer and number bytes, dates, datetimes and times from 16 stored numbers; every NaN; every include and every exclude list',
  outside='the R interpreter, its garbage collector and Rcpp themselves, errors raised by R functions, tables whose columns share a name, the R code of the package', quick=c21(0), thorough=c21(1))

METHOD['C25'] = 'The words of the row size and column size subheaders symbolic at full width, the two name lengths through every value by forking, extra subheaders chosen symbolically; properties compared with the stored fields and with what the sink was told.'
H['c25'] = dict(file='c25_meta', covers=['opened'])
def c25(t):
    r = [C('c25', jobs=1, g=0, comp=c, L=l) for l in range(8) for c in (0, 1, 2)] + [C('c25', jobs=1, g=2, comp=c, L=l) for l in range(8) for c in ((0, 1, 2) if t else (l % 3,))]
    r += [C('c25', jobs=2, g=1, comp=c, L=l, hi=h) for l in range(8) for c in range(3) for h in ((300,) if t else (300,) if (l, c) in ((0, 0), (3, 1), (6, 2)) else (12,) if l % 3 == c else ())]
    return r
P['C25'] = dict(bounds='one metadata page with three columns in all eight layouts and three compressions: every value of the five words of the row size subheader (row length at least 12; below 200 when compressed), every creator and procedure length up to 300 (quick: 12 in most layouts), every column count up to 3, unused, empty, truncated and count subheaders present or not, meta or amd page, with and without a filter', outside='metadata over several pages (C15), several row size subheaders', quick=c25(0), thorough=c25(1))
METHOD['C26'] = 'A symbolic sequence of calls on two readers of different files, with symbolic counts and row bytes, further readers opened and destroyed in between; rows, indices, notifications and cells compared with those of each file alone.'
H['c26'] = dict(file='c26_indep', covers=['used in turns'])
def c26(t):
    k = 4 if t else 3; AB = ((0, 3, 0, 0), (0, 0, 1, 1), (2, 5, 2, 2), (4, 7, 1, 2), (1, 6, 2, 0), (6, 6, 2, 2))
    return [C('c26', jobs=2, A=a, B=b, ca=x, cb=y, K=k) for a, b, x, y in AB] + ([C('c26', jobs=8, tlim=900, A=0, B=0, ca=1, cb=1, K=5)] if t else [])
P['C26'] = dict(bounds='every sequence of 3 (thorough: 4, once 5) calls on two readers: reading a row with or without sink, skipping any count, opening and destroying another reader on the same file, destroying the reader; tables of 4 rows on two pages, uncompressed, RLE and RDC, in equal and different layouts', outside='calls that overlap in time on several threads; more than three readers', quick=c26(0), thorough=c26(1))
METHOD['C27'] = 'Which call of the user\'s sink, filter or source throws, the value and kind of the exception and the calls made are symbolic; the exception caught, the rows delivered before and after, and the lifetime of the objects checked on every path.'
H['c27'] = dict(file='c27_throw', covers=['thrown', 'not opened'])
def c27(t):
    k = 3 if t else 2
    r = [C('c27', jobs=2, who=0, K=k + 1, L=0, covers=['thrown', 'not opened', 'read on'])] + [C('c27', jobs=2, who=0, K=k, L=l, comp=c) for l, c in ((3, 1), (6, 2))] + [C('c27', jobs=1, who=1, K=1, L=l) for l in (0, 7)]
    r += [C('c27', jobs=2, who=w, K=k, at=20, L=l, comp=c, covers=['thrown', 'not opened', 'read on']) for w, l, c in ((2, 0, 0), (2, 5, 1), (2, 2, 2), (3, 1, 0), (3, 4, 2))]
    if t: r += [C('c27', jobs=4, who=0, K=4, L=l, comp=c, at=12, tlim=600) for l, c in ((1, 0), (2, 1), (7, 2))] + [C('c27', jobs=4, who=2, K=4, at=20, L=l, comp=c, tlim=600) for l, c in ((3, 0), (0, 1))]
    return r
P['C27'] = dict(bounds='tables of 4 rows on two data pages (metadata on one or two pages); the first 9 (source: 21) calls of the sink, filter or source as the failing one; an exception derived from std::exception or not, with any 64-bit value; every sequence of up to 3 (thorough: 4) calls of read_row, read_rows(n), read_row_no_sink, skip(n), read_all and end_of_data, n any 64-bit value', outside='several exceptions in one history, allocation failures', quick=c27(0), thorough=c27(1))
METHOD['C28'] = 'One symbolic cell read through columns of every type at once; every accessor compared with the others.'
H['c28'] = dict(file='c28_access', covers=[])
def c28(t):
    r = [C('c28', jobs=1, t=k, L=l, covers=['missing']) for k in (2, 3) for l in range(8)] + [C('c28', jobs=2, t=4, L=l, covers=['cells']) for l in (range(8) if t else (0, 1, 6, 7))]
    r += [C('c28', jobs=1, t=0, lo=lo, hi=lo + 100, L=i % 8, covers=['date', 'datetime']) for i, lo in enumerate((0, 14600, -100, 8000) if not t else range(-2000, 24000, 500))]
    r += [C('c28', jobs=1, t=1, q=q, f=f, lo=lo, hi=lo + 30, L=(i + q) % 8, covers=['date', 'datetime']) for i, lo in enumerate((10000, 14610, -3000, 50000) if not t else range(1000, 21000, 500)) for q in (0, 1) for f in (0, 3)]
    return r
P['C28'] = dict(bounds='every missing value (any NaN), every number beyond 1e12, dates of 4 windows of 100 days, datetimes and times of every second and every eighth of a second in 4 windows of 30 days (thorough: 52 and 40 windows), all bytes of number, integer, text and unknown columns', outside='other dates (C13), the text of numbers', quick=c28(0), thorough=c28(1))
