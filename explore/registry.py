"""What each property's check runs, and the bounds it states in its evidence."""

PROPS = {}


def prop(id, bounds_quick, bounds_thorough=None, level='model_checking', technique='bounded-exhaustive exploration of the real code against a reference model', assumptions=()):
    def deco(f):
        PROPS[id] = dict(run=f, level=level, technique=technique, assumptions=list(assumptions),
                         bounds=dict(quick=bounds_quick, thorough=bounds_thorough or bounds_quick))
        return f
    return deco


@prop('P28', 'every overload of clz/ctz/popcnt, C11 and C++: all 16-bit windows at every 4th shift and complements, all words of up to 3 set bits, all runs',
      'as quick at every shift, plus all 2^32 words for the 32-bit helpers')
def p28(run):
    run.native('bits', 'bits', 'opt', csrc=['bits_c.c', 'bits_fallback.c'])


@prop('P22', 'lengths 0..330 x 4 patterns x 8 alignments, all 2-splits to 200, all 3-splits of 12 boundary lengths, equal pieces 1..200, all 4-chunk sequences over 10 sizes, all 70 interleavings of two contexts, 2^29+5 bytes',
      'as quick with lengths to 1100, 2-splits to 400, pieces to 400 and 2^32+5 bytes', assumptions=['reference compared with Python hashlib on 2408 messages in the same run'])
def p22(run):
    import hashlib, subprocess
    if not run.only:
        exe = run.build.harness('sharef', 'opt')
        n = 0
        for l in subprocess.check_output([exe], text=True).splitlines():
            b, m, d = (l.split(' ') + [''])[:3]
            h = (hashlib.sha224 if b == '224' else hashlib.sha256)(bytes.fromhex(m)).hexdigest()
            assert h == d, 'reference model disagrees with hashlib'
            n += 1
        run.add('reference_validations', n)
    run.native('sha', 'sha', 'asan')


@prop('P10', '9 collision patterns x 6 initial capacities: all sequences of <=4 operations from {insert, erase, subscript x 2 keys, read, clear, copy, assign, self-assign, move, move-assign}, all insert/erase sequences of <=5 over 3 keys (<=7 on colliding small maps), all fill/erase/insert/erase subset patterns of 5 keys, growth to 150 (140000 for two patterns) with erasing and inserting the same keys 40 times, all pairs of 4-key maps for equality',
      'as quick with depth 5 and 8, growth to 400')
def p10(run):
    run.native('hashmap', 'hashmap', 'asan')


@prop('P11', 'values 0..2^21 densely, every 16-bit window at every octet with low bits clear or set, edges around every power of two and runs of ones, all classes and both forms; decoding of every string of <=2 octets (3 with a long-form first octet), long forms up to 14 octets over 6 octet values with truncation at every length',
      'as quick with values to 2^25 and every string of 3 octets')
def p11(run):
    run.native('tlv', 'tlv', 'asan')


@prop('P12', 'every codec pointer and by-value form, plain and tagged: |values| below 2^16 densely, every 16-bit window at every octet with low and high bits clear or set, edges around every power of two, runs of ones; content writers given lengths 0..20 and hostile ones for each value; decoding of every string of <=2 octets, boundary-octet strings of 3..9 octets, declared lengths -1,0,+1 of the input and up to 2^64-1',
      'as quick with |values| below 2^24, every string of 3 octets, strings to 10')
def p12(run):
    run.native('ints', 'ints', 'asan')


@prop('P13', 'every exponent including subnormals, infinities and NaN x about 3800 mantissa shapes (one and two bits set or clear, runs, low and high octets; every seventh away from form changes), both signs; decoding of every content of <=3 octets, boundary-octet contents to 9, all bases, scale factors and exponent forms x exponents to +-1200 x mantissas of every third width',
      'as quick with every mantissa shape at every exponent, every width and more octets')
def p13(run):
    run.native('real', 'real', 'ub')


@prop('P16', 'both booleans, null, octet strings of 0..300 octets x 4 patterns x 7 capacities x truncations, 64 KiB boundaries, 1 MiB, 2^31, 2^32-1, 2^32 and 2^32+5000 octets; decoding of every string of <=2 octets (3 for tagged forms) with 8 declared lengths',
      'as quick with lengths to 2100')
def p16(run):
    run.native('prim', 'prim', 'asan')


@prop('P17', 'doubles: every exponent x about 4500 mantissa shapes (every 17th away from form changes); floats: every exponent x a stride of 2039 or 61 plus all bit shapes; each also read in the other precision; decoding: every header x every two following octets, boundary octets in long forms with truncation, all exponents to +-1300 in steps of 5',
      'as quick with all 2^32 floats in the pointer and by-value forms and every shape at every double exponent')
def p17(run):
    run.native('vf', 'vf', 'ub' if not run.thorough else 'opt')


@prop('P18', 'values below 2^21 densely, 16-bit windows at every septet with low bits clear or set, edges around every power of two; decoding of every string of <=3 octets and boundary-octet strings to 12 with every continuation pattern end',
      'as quick with values below 2^26 and windows at every bit')
def p18(run):
    run.native('leb', 'leb', 'asan')


@prop('P14', 'all valid pairs of arcs (second to 20000 under 2), triples and quadruples over 36 boundary values, every count 2..15 with every boundary value in every place, every text capacity; all texts of <=6 characters over {0,1,9,.,a,space,-,NUL,/,:}, every character in every place of three identifiers, 1..40 arcs, arcs to 129 bits; every octet string of <=2 (3) octets, boundary octets to 6, runs to 40',
      'as quick with texts of 7, quintuples, every string of 3 octets and all boundary strings of 6')
def p14(run):
    run.native('oid', 'oid', 'asan')


@prop('P15', 'every registered identifier; every prefix, suffix, deletion, transposition, one-octet insertion and substitution of each; every string of <=2 octets (3 in strides), every identifier after every 32nd other, in both orders; the table generator on the published file and on all identifiers of <=2 more components over 20 values after 22 first pairs',
      'as quick with every string of 3 octets, every ordered pair and three more components', assumptions=['data/oids.txt is the published registry'])
def p15(run):
    run.native('oidreg', 'oidreg', 'asan')
    import oidscript
    oidscript.run(run)


@prop('P19', 'each of 39 decoder entry points: every input of <=2 octets at two positions with every declared length to n+2 and 12 hostile ones, 15 boundary octets in every place of 3..5, runs to 260 octets, every long form of declared length around every power of two; address and arithmetic sanitizers on',
      'as quick with every input of 3 octets and boundary inputs of 6')
def p19(run):
    run.native('robust', 'robust', 'ub')


@prop('P20', 'each of 35 encoder entry points over values around every power of two and every form change x every capacity from 0 to need+2 x positions 0, 1, 3 and beyond the end, memory ending exactly at the capacity; component counts beyond the structure',
      'as quick with denser values')
def p20(run):
    run.native('bounded', 'bounded', 'ub')


@prop('P26', 'capacities 0..12: all sequences of <=3 of 25..37 operations (typed and byte transfers, impossible sizes, seeks to and beyond every position); 8 operations to depth 6 on capacities 6..17; two buffers interleaved; all 16-bit values and 5^8 octet patterns at offsets; byte order of all 16-bit windows and octet patterns from C++, C and the portable forms; dumps of 0..70 octets; every typed and byte transfer around positions 2^31, 2^32 and the end of a buffer of 2^32+24 octets',
      'as quick with depths 4 and 7')
def p26(run):
    run.native('bufs', 'bufs', 'asan', csrc=['endian_c.c', 'endian_gen.c'])


@prop('P21', 'decoder pairs: every string of <=2 octets, 12 boundary octets in places 3..6, runs to 20 with 5 declared lengths; encoder pairs: 0..70000, edges, every float exponent and all double exponents near changes of form x bit shapes x room 0..24; every function and object of the C headers linked from C and C++ with gcc and clang, headers in two files at once',
      'as quick with every string of 3 octets and every double exponent')
def p21(run):
    import linkcheck
    linkcheck.run(run)
    run.native('byval', 'byval', 'asan')


@prop('P08', '165 images that the plug-in makes of enumerated units, as they are, rebuilt in six orders, and a third of the small ones with every single change; sources of <=2 declarations out of a catalogue of 23 (self reference, nesting, attributes, bit-fields, early references): every pair of nodes compared for equal content <=> equal hash, names of all nodes, second scan and second index; every creation order (<=5 nodes) or all rotations, swaps and reversal; every single change (each property and quantity bit, names, kinds, links, lists, attributes) of each declaration and of a fifth of the pairs; depths and lengths to 5000, lists around 2^16 and to 70000; names of 1..300 characters and around every power of two to 65536, alike but for one place; chains of structures to 1000 (and 200000, a known finding)',
      'as quick with 3 declarations and every change of every pair')
def p08(run):
    import corpus
    run.native('hashes', 'hashes', 'asan', args=['--data', corpus.build(run)])


@prop('P01', '165 images that the plug-in makes, extended too; all graphs of 1 and 2 nodes over every reference of next, link and attr x 6 payloads and of 3 nodes over next and link; each kind, each property and quantity bit, each count to 300, around growth to 20000, 2^16 and 2^17, each name length to 1100 and to 1 MiB; every capacity 0..size+3 in exactly sized memory; sources of <=2 catalogue declarations and their merges; through memory and files; extended after loading at every size to 48 x additions, saved and loaded again',
      'as quick with all references of 3 nodes, counts to 1100, names to 5000')
def p01(run):
    import corpus
    run.native('image', 'image', 'asan', args=['--data', corpus.build(run)])


@prop('P02', 'small images that the plug-in makes and about 45 well-formed images (1..3 bare declarations, every catalogue declaration, pairs): every truncation (exactly sized memory and files), every 32-bit field x about 75 boundary values and bit flips, every octet x every value (small images; strides otherwise), removed, inserted and overwritten octets, all small header counts and 32-bit wrap values together, pairs of references, tails cut with headers adjusted or wrapped; database compared octet for octet after each failure, empty and in use, then loaded with a good image',
      'as quick with every pair of catalogue declarations and every octet value')
def p02(run):
    import corpus
    run.native('damage', 'damage', 'asan', args=['--data', corpus.build(run)])


@prop('P05', 'two databases, fresh and with builtin types: every sequence of <=3 of 16 operations and of 4 of 12 (declarations, names of several lengths, bulk growth, indexing, failed loads), the other database compared octet for octet; 3000 additions (140000 for some) checked at each growth; two million declarations; names of every length to 1100 after every fill of 0..69; additions after loading images of 1..80 declarations x name lengths; index growth at 11 strides; two of 6 operations beside each other over all pairs of catalogue declarations',
      'as quick with sequences of 6 and names to 4200')
def p05(run):
    run.native('store', 'store', 'asan')


@prop('P06', 'each of 10 list queries over every child list of <=3 declarations of all 19 kinds and 4..5 of 7 kinds, every capacity to n+1, absent array or size, every wrong parent; lists to 300, around 2^15, 2^16, 2^17 and of 200001; each predicate and typed accessor on 23 kinds x every quantity and property bit; builtin lookup over 1024 property sets x 306 widths; exactly sized arrays',
      'as quick with all lists of 4 and mixed lists of 7')
def p06(run):
    run.native('queries', 'queries', 'asan')


@prop('P24', '165 images that the plug-in makes and merges of three of them; all sources of <=2 catalogue declarations and their merges x 8 formats, whole and row by row, starting at every declaration from the empty one on; 19 kinds x every pair and run of 32 property bits, every quantity bit and decimal boundary; names of every length to 320 for 18 kinds and their references; declaration numbers to 100300; every pair of formats x databases in turn, after changes; statistics of each; every line compared with an independent rendering',
      'as quick with rows for all sources and names to 1200')
def p24(run):
    import corpus
    run.native('dumps', 'dumps', 'asan', args=['--data', corpus.build(run)])


@prop('P27', '12 format shapes x every length to 1300 and around powers of two to 1 MiB, both entry points; names of every length to 600 and to 65536 through hashes, qualified names, images, merge and 8 dump formats; base names of all strings of <=7 characters over {a,b,.,/,\\}',
      'as quick with lengths to 5000 and names to 2100')
def p27(run):
    run.native('text', 'text', 'asan')


@prop('P09', '165 images that the plug-in makes, alone, twice, in ordered pairs (large ones a quarter) and some threes; every source of <=2 catalogue declarations alone, every ordered pair and triple of single-declaration sources, every two-declaration source with every single one in both orders; every source beside itself with each of about 30 single changes per declaration, both orders; repeated inputs, archives of archives, 1..40 inputs, 1..22000 structures; chains of structures to 500 (and 200000, a known finding); merged graph compared with each input by bisimulation, sharing counted, layout, image and index of the result',
      'as quick with all pairs of two-declaration sources, triples, all changes')
def p09(run):
    import corpus
    run.native('merge', 'merge', 'asan', args=['--data', corpus.build(run)])


@prop('P03', 'images of 52..12000 bytes: storage that stops at every byte (strided for the larger) over files absent, shorter and longer; images with more than 2^31 and 2^32 octets behind them; every I/O call of a save and a load failing in 4 ways (error, short, error after losing data); every truncation; missing, directory, link, pipe, socket, device, over-long and looping paths, no descriptors left; descriptors counted after each of the calls; files that grow or shrink while they are read; every sequence of 3 images over one file',
      'as quick with every byte of every image', assumptions=['file size limits and failing calls stand for failing storage'])
def p03(run):
    run.native('fileio', 'fileio', 'asan', extra=['-U_FORTIFY_SOURCE'])


@prop('P07', '47379 records: members of 34 kinds (builtins, enumerations, pointers, arrays, qualifiers, typedefs) alone, in pairs, 14 kinds in threes and 6 in fours, in structures and unions; bit-fields: all sequences of <=3 of 27 members (types x widths, unnamed, zero width, plain neighbours), every width of every type beside others; records nested 1..3 levels deep as member, array, anonymous member and tagged; flexible and empty arrays; 5..66000 members; arrays of 2^e and 2^e-1 elements to 2^48; each built through the API in two shapes and extracted by the plug-in, every capacity of the query',
      'as quick with all triples of 34 kinds, 12 in fours, sequences of four bit-fields, more edges', assumptions=['gcc and clang agree on the x86-64 System V layout (compared in the same run)'])
def p07(run):
    import layoutrun
    layoutrun.run(run)


@prop('P23', 'enumerated C units: all types of <=2 constructors (pointer, array, function pointer, qualifiers) over 33 bases and 3 over 5, each as typedef, variable, member, parameter and result; structure and union bodies of <=3 of 17 member kinds; enumerations of <=3 of 15 boundary values; <=3 attributes of 13 on each kind of declaration; functions of <=2 of 11 parameter kinds, storage classes, bodies with local declarations; every sequence of <=2 (a third of 3) of 21 declarations with forward references and redeclarations; names to 70000, nesting to 30, 32768..70001 constants, members, variables, types and (to 60000) parameters in one unit; tags declared inside parameter lists, va_list, atomic types, __typeof__ and __auto_type in every place; sequences of <=2 of 19 odd declarations (tags in sizeof, assertions, initializers, casts, widths; asm, K&R definitions, repeated and mixed declarators); every third unit again with debug output, for identical bytes; C++ units: bodies of <=2 (part of 3) of 28 member kinds (methods, constructors, nested and anonymous tags, statics, friends, templates) in classes, structures and unions, at top level, in namespaces, in linkage blocks; sequences of <=2 (part of 3) of 20 C++ declarations; element counts 2^1..2^57; templates defined out of their class, specialised in part and instantiated explicitly',
      'as quick with all sequences of 3 (odd and C++ ones too), all member bodies, types of 4 constructors, three parameters', assumptions=['clang 14, with which the plug-in is built, parses the source'])
def p23(run):
    import plug, cxx
    plug.run(run)
    cxx.run(run)


@prop('P04', 'every mode on 23 catalogue declarations, all pairs of 12, sizes to 5000, 66000 and 131100 declarations; emitted source compiled by gcc and clang for 70 images (sizes 52..91 and large) and its data compared; merges of every sequence of <=4 of 6 images and up to 900 inputs; 60 damaged and 8 unreadable inputs in every position; storage that ends at every byte of the output (strided for large and repeated formats), full, absent and unusable outputs; every I/O call (to the 900th) failing in 4 ways; all command lines of <=2 of 25 words and most of 3, each in a process of its own',
      'as quick with every byte, every call to the 6000th, all pairs of declarations, merges of five, all command lines of three words', assumptions=['file size limits and failing calls stand for failing storage', 'the dump and merge text itself is decided by P24 and P09'])
def p04(run):
    toolcheck(run, 'crefltool', 'tool', 'opt')


def toolcheck(run, tool, harness, flavor, exe_flavor='asan'):
    import os
    exe = run.build.tool(tool, exe_flavor)
    obj = os.path.join(run.work, '%s-%s.o' % (tool, flavor))
    run.build.run(['g++'] + run.build.cxxflags(flavor) + ['-U_FORTIFY_SOURCE', '-c', os.path.join(run.repo, 'tool', tool + '.cc'), '-o', obj])
    run.build.run(['objcopy', '--redefine-sym', 'main=tool_main', obj])
    run.native(harness, harness, flavor, extra=['-U_FORTIFY_SOURCE'], args=['--data', exe], objs=[obj])


@prop('P25', 'all forests of <=4 elements over 5 leaf kinds, sequence and set; 35 leaf kinds alone, in all pairs, in every length form, cut at every octet; every octet of small forests replaced by 25 values, removed, doubled; files of one octet, most of two, boundary files of three; claimed lengths around the true one in 10 forms and around every power of two; tags of <=10 octets; nesting 1..140 and to 60000; wrong elements at every depth to 120; identifiers of 1..17 numbers of every length; contents to 200000 octets; 65534..140000 elements beside each other; identifiers of <=20 boundary octets and all registered ones; unreadable files, output that ends at every byte, every I/O call failing in 4 ways; each file in a process of its own under the address sanitizer',
      'as quick with forests of 5, all triples of leaves, all files of two octets, every octet of all small forests, nesting to 400',
      assumptions=['the value and the description of an identifier are decided by P14 and P15'])
def p25(run):
    toolcheck(run, 'asn1tool', 'asn1dump', 'asan')


@prop('P29', 'every sequence of <=3 of 21 operations on a database, its index and a second database (additions, growth, saves and loads that succeed and fail, indexing, merging, dumping, queries), <=2 also on an empty one; all sources of <=2 catalogue declarations through merge, index, save, load and 8 dump formats; images damaged at every octet in 3 ways; every decoder on all first octets x 52 second ones x 5 lengths, every encoder over the edges of every form x 7 capacities; each run three times, memory and descriptors compared; 2^e declarations with names of 2^f characters merged in every rotation',
      'as quick with sequences of 4 and all pairs of octets')
def p29(run):
    run.native('leaks', 'leaks', 'asan')


@prop('P30', 'every pair (and each operation beside itself) of 12 kinds of work on handles of one\'s own, 39 decoders, 35 encoders and 6 kinds of reading the same database, two threads in a new process for each pair; a happens-before race detector on every access, results compared with the operation alone',
      'as quick with both orders', technique='all pairs of operations in two threads; race-free pairs without synchronisation have one behaviour up to order of independent steps',
      assumptions=['the race detector (gcc thread sanitizer) sees every access of the library code', 'printing and the choice of dump format belong to the process'])
def p30(run):
    run.native('threads', 'threads', 'tsan')


@prop('P31', 'ten sources with shared and clashing headers, found in directories in any order, every one through 5 forms of creflcc.py options (short, long, debug, C++, and the command -n shows) and 6 refused uses; every sequence of one or two sources (the second also taken as C++) and a quarter of the sequences of three through --merge, --emit, gcc and the linker into a program that prints its own reflection; compared with probes compiled by gcc and clang; every sequence of up to three plug-in arguments; plug-in output cut at up to 40 places, full devices and directories; CMake projects of one and two sources through cmake/crefl_macro.cmake',
      'as quick with every sequence of three and every order of four', technique='every sequence of sources through the whole tool chain, run-time reflection compared with the compilers',
      assumptions=['gcc and clang agree on the layout of the ten sources (checked in the same run)'])
def p31(run):
    import pipeline
    pipeline.run(run)


@prop('P32', 'every removal, cut, doubling, exchange with the next and a third of the replacements by 14 words of each token of 13 C and 6 C++ units (structures, unions, enumerations, bit-fields, functions, declarations in odd places, vectors, wide integers, templates), plain, with -debug and with -dump; each image read independently, every fourth also by crefltool under the address sanitizer',
      'as quick with all replacements, insertions and removals of two tokens', technique='exhaustive single-token edits of enumerated units through the plug-in in the compiler',
      assumptions=['clang 14, with which the plug-in is built, parses the source'])
def p32(run):
    import broken
    broken.run(run)


@prop('P33', 'all strings of <=5 characters over {0,1,.,e,E,+,-,newline} and of <=7 over {0,1,.,e,-}, every octet inserted into and put over every place of a number, every digit in every place, parts to 5000 digits, each in both modes; 42 of them and 7 refused uses as processes of their own',
      'as quick with 6 and 8 characters', technique='exhaustive enumeration of input strings against an independent recognizer',
      assumptions=['the interpreter evaluates the script the same in a loop as in a process of its own (42 strings compared)'])
def p33(run):
    import nr3
    nr3.run(run)


@prop('P34', 'each of 9 dump choices with and without statistics and debug output; every one of 8 headers (C and C++, with include directories, a space in the name, empty, 600 structures, one base name twice) and every ordered pair of the 7 C ones, in short and long options, to a pipe and to a file; patterns; the command that -n shows, run by a shell, for 7 headers x 8 forms; 3 failures',
      'as quick with every sequence of three and every dump choice of every header', technique='exhaustive enumeration of command lines against the output composed from crefltool itself')
def p34(run):
    import runtests
    runtests.run(run)


@prop('P35', 'some 1,300 structures: every sequence of up to two members from a pool of 59 types (the second from 8), of three from 8; every type under every stack of two contexts (structure, union, array), unnamed members at every place, 10 to 1000 members, 100 levels; five byte patterns of every object through the sample printer, the types in one source, in two, in two the other way round, and after an empty one; what example1_file and example2_embed print of them, line by line; AddressSanitizer',
      'as quick with all pairs of 59 types, three members with the middle one from 59, and stacks of three contexts', technique='exhaustive enumeration of types up to a depth, the samples\' output compared with that of the compiled program itself')
def p35(run):
    import samples
    samples.run(run)
