#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the file can be edited in a readable form."""
import json, os
S='shogi_core/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if hook: a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
POS=S+'position.rs'
p('C01','Making a move follows the pseudo-legal move rules exactly',
 "From every position, a move is accepted exactly when it moves the mover's own piece to a square not holding another piece of the mover and, if it captures, captures no king and, if it promotes, the piece can promote; or when it drops an unpromoted piece of the mover that is in the mover's hand onto a vacant square. An accepted move yields exactly the successor position the rules give: the piece (promoted if asked) stands on the destination and the origin is vacant, a captured piece goes unpromoted to the mover's hand, a dropped piece leaves the hand, every other square and hand count is unchanged, the turn passes, the ply number grows by one (modulo 65536) and the move becomes the last move. The two move representations give the same verdict and the same successor.",
 ['inputs','histories'],'all positions (any contents of board, hands, turn, ply), all moves expressible in the move type, all sequences of moves',
 'make_move has 15,390 arguments and an astronomically large state; the unit test plays four moves from the starting position.',
 [POS,S+'hand.rs',S+'piece.rs',S+'mv.rs'],[('make_move',POS+' PartialPosition::make_move, make_compact_move'),('hand arithmetic',S+'hand.rs Hand::added/removed')],
 ['PartialPosition::make_move','PartialPosition::make_compact_move','Position::make_move','piece_at, hand, side_to_move, ply, last_move'])
p('C02','A rejected operation changes nothing',
 "Whenever making a move, setting the ply number or adding to / removing from a hand reports failure, nothing observable of the object changed: board, hands, turn, ply, last move, derived piece sets, king squares, text form, and (for positions with history) the recorded moves and the initial position. This holds for both move representations and for every reason of rejection.",
 ['inputs','histories'],'all positions and histories, all moves that are rejected, for each rejection reason',
 'The documentation promises it for every argument; no unit test passes a rejected move.',
 [POS,S+'hand.rs'],[('checks before writes',POS+' make_move'),('push only after success',POS+' Position::make_move')],
 ['all getters of PartialPosition and Position'])
p('C03','Piece sets and king squares always agree with the board',
 "After any sequence of edits and moves, the set of squares of a player, of a piece kind, of a coloured piece, the occupied set and the vacant set contain exactly the squares where the board shows such a piece (or any piece, or none). A king's reported square is a square that holds that king, and none is reported exactly when that king is not on the board.",
 ['inputs','histories'],'all sequences of piece placement, removal, overwriting and moves, including boards without or with several kings',
 'The redundant bitboards are updated incrementally in several places; tests look at one or two bitboards of the starting position.',
 [POS,S+'bitboard.rs'],[('incremental update','%s piece_set'%POS),('derived getters','%s occupied_bitboard, vacant_bitboard, player_bitboard, piece_bitboard, piece_kind_bitboard, king_position'%POS)],
 ['PartialPosition and Position bitboard getters','PartialPosition::king_position'],
 state=[('player_bb, piece_bb, king_square','redundant views of the board',POS)])
p('C04','Equality, ordering and hashing are coherent and depend on content only',
 "For every type, equality is an equivalence that holds exactly when the observable contents are equal, ordering is a total order consistent with equality (including the comparison operators), and equal values hash equally. Two positions with the same observable content are equal, compare as equal and hash equally no matter by which edits or moves they were reached, and positions that differ in any observable component are unequal. A clone equals its original.",
 ['inputs','histories'],'all pairs (and orderings) of values of every type; all pairs of histories reaching the same content',
 'Tests compare a handful of values; coherence is a statement about all pairs of values and all paths to them.',
 [POS,S+'annotated_derive.rs',S+'hand.rs',S+'mv.rs',S+'bitboard.rs',S+'piece_kind.rs',S+'square.rs',S+'piece.rs',S+'game_resolution.rs',S+'illegal_move_kind.rs',S+'legality.rs',S+'color.rs'],
 [('derived Eq, macros for Ord and Hash',S+'annotated_derive.rs'),('hand comparison',S+'hand.rs'),('move ordering and hashing',S+'mv.rs')],['==, cmp, partial_cmp, <, Hash::hash, Clone'])
p('C05','SFEN text is exact for every position',
 "The SFEN text of a position is the board rank by rank from the ninth file to the first, with maximal runs of empty squares as single digits and a '+' before promoted pieces, then the side to move, the hands (or '-' when both are empty; counts of two or more before the letter; black before white, in the order rook to pawn), then the ply number in decimal without leading zeros. It therefore determines board, turn, hands and ply uniquely, and every way of producing it gives the same text.",
 ['inputs'],'all positions: every rank occupancy pattern, every piece on every square, all hand counts 0..255, all ply numbers 0..65535, both turns',
 'Three SFEN strings are tested; run lengths, counts of ten or more, promoted pieces at rank ends and large ply numbers are not.',
 [POS,S+'hand.rs',S+'common.rs',S+'piece.rs'],[('to_sfen',POS+' PartialPosition::to_sfen'),('hands',S+'hand.rs ToUsi for [Hand; 2]'),('numbers',S+'common.rs write_u8, write_u16')],
 ['to_sfen, to_sfen_owned, to_sfen_c'])
p('C06','The C string form of SFEN stays within its documented buffer',
 "Writing SFEN to a C buffer writes exactly the bytes of the SFEN text followed by one NUL byte, and touches no byte after it or before the buffer. For every position whose pieces on board and in hands are at most those of a standard shogi set (40 pieces), the total including NUL is at most the documented 139 bytes.",
 ['inputs'],'all positions made of at most the 40 pieces of a standard set, all ply numbers',
 'A memory-safety bound over all positions; the C test uses a 200-byte buffer and the starting position only.',
 [POS],[('to_sfen_c bridge',POS+' PartialPosition::to_sfen_c, Position::to_sfen_c')],['bytes of the buffer around the text'])
p('C07','USI text of every value is exact',
 "Every square, piece, piece kind, colour, pair of hands and move is written as USI prescribes: squares as file digit and rank letter, pieces as letters (uppercase black, lowercase white, '+' before promoted ones), moves as origin, destination and '+' when promoting, drops as uppercase piece letter, '*' and destination. The compact form of a move has the same text as the move, the owned-string form equals the streamed form, and different values of one type (for drops: different piece kinds) have different texts.",
 ['inputs'],'all 81 squares, 28 pieces, 14 kinds, 2 colours, 15,390 moves, all hands',
 'Finite but far beyond the samples in tests; uniqueness is a statement about all pairs.',
 [S+'mv.rs',S+'piece.rs',S+'piece_kind.rs',S+'square.rs',S+'color.rs',S+'hand.rs',S+'to_usi.rs'],[('ToUsi impls','to_usi in each file'),('to_usi_owned',S+'to_usi.rs')],['ToUsi::to_usi, to_usi_owned'])
p('C08','A failing text sink is always reported',
 "When the sink given to any text output fails at any point of the output, the call reports the failure; it reports success only if every byte was accepted. What the sink had accepted is then a prefix of the full text, so output never continues after a failed write.",
 ['fault_sequences','inputs'],'every failure point (each byte capacity and each write call, transient and permanent) of every output operation',
 'No test uses a sink that fails.',
 [POS,S+'hand.rs',S+'common.rs',S+'mv.rs',S+'piece.rs',S+'square.rs',S+'piece_kind.rs',S+'color.rs'],[('? after each write','all to_usi/to_sfen implementations')],['fmt::Result of to_usi and to_sfen'])
p('C09','The compact move form is a lossless encoding of moves',
 "Converting any move to its two-byte form and back gives the same move, and the number is promote*32768 + from*256 + to, or piece*256 + 128 + to for drops, never zero. Origin, destination, promotion and drop queries and the constructors agree between the two forms, and the optional form keeps both presence and value.",
 ['inputs'],'all 13,122 board moves and 2,268 drops',
 'Doc examples cover two moves.',
 [S+'mv.rs'],[('conversions',S+'mv.rs From<Move> for CompactMove, From<CompactMove> for Move'),('accessors',S+'mv.rs CompactMove::from/to/is_promoting/is_drop')],['conversions and accessors'])
p('C10','Bitboards behave as sets of squares',
 "A bitboard is a set of squares: singletons, emptiness, membership, counting, intersection, union, symmetric difference, difference, complement, in-place and by-reference operators, operators with a square, and raw-representation round trips give what the same operations on a set of the 81 squares give. No operation ever creates a member outside the board or makes two equal sets unequal.",
 ['inputs','histories'],'all sets of squares, all pairs of them, all sequences of set operations',
 '2^81 values; tests use a few singletons.',
 [S+'bitboard.rs'],[('two-word representation',S+'bitboard.rs')],['contains, count, ==, operators'])
p('C11','Enumerating a bitboard yields each member exactly once',
 "Popping or iterating a bitboard returns each of its squares exactly once and nothing else, then none forever; each pop removes exactly the returned square. Iterator adaptors and hints stay consistent with that (size bounds bracket the real number, and count, nth, last, fold and the like agree with plain iteration).",
 ['inputs','histories'],'all sets of squares, all interleavings of pop, membership tests and set operations',
 'Tests pop from one two-element set.',
 [S+'bitboard.rs'],[('pop, Iterator',S+'bitboard.rs Bitboard::pop, next, size_hint')],['pop, next, Bitboard_pop, size_hint'])
p('C12','Bitboard geometry: shifts, flips and file patterns',
 "Shifting a bitboard up, down, left or right by 0 to 9 moves every member by that many ranks or files and drops those that leave the board; flipping maps every member to the square rotated by 180 degrees; building from and reading a file pattern relate bit i to rank i+1 of that file. Results are well-formed sets (equal to the set of the moved squares).",
 ['inputs'],'all sets of squares, all shift distances 0..9, all files and file patterns',
 'Boundary behaviour between the two words and at board edges for 2^81 values; tests use a few patterns (one such defect was found here).',
 [S+'bitboard.rs'],[('masked shifts',S+'bitboard.rs shift_up, shift_down, shift_left, shift_right, flip, from_file_unchecked, get_file_unchecked')],['contains, =='])
p('C13','Byte-swapped bitboards mirror ordinary ones',
 "Reversing the bytes of a bitboard and reversing them back gives the same bitboard, and the reversed raw value is the byte reversal of the raw value. Union, intersection, symmetric difference and difference commute with the reversal, and raw-representation round trips are lossless.",
 ['inputs'],'all sets of squares and pairs of them',
 'Untested except for one example; a statement over all pairs.',
 [S+'bitboard.rs'],[('swap_bytes',S+'bitboard.rs ByteSwappedBitboard')],['swap_bytes, to_u128, operations'])
p('C14','Square coordinates, indices, relative views and shifts agree',
 "File and rank in 1..9, the index 9*(file-1)+rank, the zero-based array index, the relative file and rank of a player, the 180-degree flip, the named constants and the enumeration of all squares describe the same 81 squares. Construction from coordinates (absolute or relative to a player) succeeds exactly for coordinates on the board, and shifting by any signed deltas gives the shifted square exactly when it is on the board.",
 ['inputs'],'all 256x256 coordinate arguments, all squares, all 256x256 deltas',
 'Tests sample; arithmetic on narrow integers must hold for every argument.',
 [S+'square.rs','shogi_core/build.rs'],[('arithmetic',S+'square.rs'),('generated constants','shogi_core/build.rs')],['Square API, C interface, consts'])
p('C15','Piece and piece-kind algebra',
 "A piece is exactly a kind and a colour: construction, decomposition, numeric representation, array index, constants and the enumeration of all pieces agree for all 28 pieces. Promotion keeps the colour, is defined exactly for pawn, lance, knight, silver, bishop and rook, and is inverse to unpromotion, which is defined exactly for the six promoted kinds.",
 ['inputs'],'all kinds, colours, pieces',
 'Tables written by hand in several places that must agree.',
 [S+'piece.rs',S+'piece_kind.rs',S+'color.rs','shogi_core/build.rs'],[('tables',S+'piece.rs, piece_kind.rs'),('constants','shogi_core/build.rs')],['Piece, PieceKind, Color API'])
p('C16','A hand is a multiset of the seven hand kinds',
 "Adding to and removing from a hand change the count of exactly that kind by one (adding wraps from 255 to 0, removing fails at 0), and both fail for kings and promoted pieces, for which no count exists. Counts, hand-kind queries, the enumeration of hand kinds and the in-place variants agree with this for every hand.",
 ['inputs','histories'],'all hands, all sequences of additions and removals',
 'Tests use a few hands; packing of counts must keep kinds apart for all values 0..255.',
 [S+'hand.rs'],[('counts',S+'hand.rs')],['added, removed, count, Hand_add, Hand_remove, Hand_count'])
p('C17','A position with history equals its initial position plus its moves',
 "A position with history keeps its initial position unchanged, lists exactly the accepted moves in order, and its current position is what replaying them from the initial position gives; all its queries answer as the current position does. Clones are independent of each other.",
 ['histories'],'all sequences of accepted and rejected moves (both representations), clones and edits, long games included',
 'A statement about all histories; the tests use at most four moves and never compare with a replay.',
 [POS],[('Position',POS+' Position::make_move, moves, initial_position, inner')],['moves, initial_position, inner, all delegating getters'])
p('C18','A game record returns the last resolution set and keeps its position',
 "A game's resolution is the last one set, or none if none was set since the last reset, in all its forms; resolving and unresolving never change the position. Games compare, hash and clone as position plus resolution.",
 ['histories'],'all sequences of resolve, unresolve and queries on both game types',
 'Not tested at all.',
 [POS,S+'game_resolution.rs'],[('Game, PartialGame',POS)],['resolution, Game_resolution, position'])
p('C19','Provided legality operations gate on game status and obey the checker',
 "For every answer a legality checker may give, the provided operations report 'game finished' (or false, or no moves) whenever the position with history is not in progress, and otherwise give exactly the checker's answer for the current position. The provided move operation changes the position exactly when that verdict is 'legal', then by exactly that move, and otherwise leaves it untouched and returns the checker's error.",
 ['inputs','histories'],"all answers of the checker's required operations (status with and without history, verdicts, move lists), all moves, several positions",
 'The trait has no implementor and no test in the repository.',
 [S+'legality.rs'],[('default methods',S+'legality.rs is_legal, is_legal_lite, all_legal_moves, make_move')],['return values, position, calls received by the checker'])
p('C20','The C library as described by its header behaves like the Rust library',
 "A C program compiled against the published header and linked with either kind of the C library (with std, or without std but with an allocator) observes, for every function of the header, the values the rules and the Rust interface give, and no call writes outside the objects the header describes. Structures that C code allocates have the size and layout the library assumes.",
 ['inputs','configurations'],'all exported functions, all argument values for small argument types, sequences of moves and queries, both library builds',
 'The C test prints one starting position; the header is written separately from the code, and calling-convention or layout mismatches are invisible to Rust tests.',
 ['include/shogi_core.h','shogi_core_c/src/lib.rs','shogi_core_c/src/no_std.rs',POS,S+'bitboard.rs',S+'square.rs'],[('repr(C)/transparent types and exported names','#[no_mangle]/export_name items'),('header','include/shogi_core.h')],['return values and memory seen by C'])
p('C21','The no_std allocator hands out disjoint, aligned, in-bounds memory',
 "Under every interleaving of allocations, reallocations and releases from several threads, each successful allocation lies inside the arena, has the requested size and alignment, and overlaps no other allocation that is still in use; reallocation keeps the contents, zeroed allocation returns zeros. A request that cannot be satisfied returns null and leaves later smaller requests possible.",
 ['schedules','inputs','histories'],'all interleavings of atomic steps of 2 and 3 threads with a few operations each; all operation sequences to a depth, sizes and alignments including exhaustion',
 'No test covers it; data races and lost updates depend on the schedule (a misaligned arena was found here).',
 ['shogi_core_c/src/no_std.rs'],[('fetch_update on the remaining size','shogi_core_c/src/no_std.rs SimpleAllocator::alloc')],['pointers returned by GlobalAlloc'],
 hook='cfg(shogi_verif) in shogi_core_c/src/no_std.rs: atomics replaced by a schedulable shim, no global symbols')
p('C22','The memory primitives of the no_std C library meet their C contracts',
 "The copying, filling, comparing and zeroing functions that the no_std library exports affect exactly the given bytes, return what the C standard (or the Linux standard base) says, and compare as unsigned bytes, for every length, alignment and content. They terminate and touch nothing outside the given ranges.",
 ['inputs'],'all lengths to a bound, all relative alignments, all byte values',
 'Never called directly by a test; a mistake shows only for particular bytes or lengths.',
 ['shogi_core_c/src/no_std.rs'],[('memcpy, memset, memcmp, __bzero','shogi_core_c/src/no_std.rs')],['exported symbols of the no_std shared library'])
p('C23','Conversions from numbers and C option types are exact',
 "Checked conversions from a number succeed exactly for valid representations and give the value with that representation; each C-compatible optional or result type converts to and from the Rust option or result without loss, with 0 meaning absent (or success) and its default, where it has one, being absent. The numeric representations are the documented discriminants.",
 ['inputs'],'all 256 byte values for each conversion; all values of all option types',
 'Tests cover some types; C callers rely on all of them.',
 [S+'square.rs',S+'piece_kind.rs',S+'piece.rs',S+'mv.rs',S+'game_resolution.rs',S+'illegal_move_kind.rs',S+'color.rs',S+'legality.rs'],[('from_u8, From impls','each file')],['from_u8, From/Into, Default'])
p('C24','Safe calls never panic, overflow, hang or have undefined behaviour',
 "No sequence of calls of safe functions, with any arguments, panics, overflows an integer in a checked build, fails to terminate, reads or writes out of bounds or otherwise has undefined behaviour; unsafe functions have none when called within their documented conditions. Allocation failure is the only permitted exception.",
 ['inputs','histories'],'all arguments of small types, boundary positions (no king, many kings, full board, full hands, ply limits), sequences of calls',
 'The library uses unchecked indexing and transmutes throughout; tests do not run under an undefined-behaviour checker and cover few arguments.',
 [POS,S+'bitboard.rs',S+'square.rs',S+'piece.rs',S+'piece_kind.rs',S+'hand.rs',S+'mv.rs',S+'common.rs'],[('unsafe blocks with range arguments','get_unchecked, from_u8_unchecked, transmute')],['panics, aborts, Miri diagnostics'])
p('C25','Games conserve pieces and alternate turns',
 "Along every sequence of accepted moves, the number of pieces of each kind (promoted ones counted as their unpromoted kind) on the board and in both hands together never changes as long as no hand count passes 255, no king is ever captured, dropped or duplicated, and the turn alternates. Ply number and last move follow the sequence.",
 ['histories'],'all move sequences to a depth from several positions, and complete long games',
 'An invariant over histories, checked without reference to the move rules; tests play four moves.',
 [POS,S+'hand.rs'],[('capture and drop bookkeeping',POS+' make_move')],['piece_at, hand, side_to_move'])
p('C26','Build configuration does not change behaviour',
 "In every combination of the crate's features, with and without debug assertions and optimisation, the library compiles and the functions available in that combination give the same answers. Comparison and hashing features only add operations.",
 ['configurations','inputs'],'all 24 feature combinations x unoptimised/size-optimised builds, on a fixed exhaustive workload',
 'The test suite runs with all features in a debug build only.',
 ['shogi_core/Cargo.toml',S+'lib.rs',S+'annotated_derive.rs',POS,S+'to_usi.rs'],[('cfg(feature = ...)','all files')],['results of a workload in each configuration'])
p('C27','Values do not interfere with each other',
 "Every result depends only on the arguments and the object's own history: operations on one object never change what another object or an earlier-taken copy shows, whatever the interleaving, also from several threads. Repeating a query without a change in between gives the same answer.",
 ['histories','schedules'],'all interleavings of short operation sequences on two objects; threads using distinct objects',
 'Hidden shared state shows only for particular interleavings of calls; tests use one object at a time.',
 [POS,S+'bitboard.rs',S+'hand.rs'],[('no shared mutable state','whole crate')],['all getters'])
p('C28','Positions release exactly what they allocate',
 "Creating, cloning, moving, overwriting and destroying positions with history (through Rust ownership or the C create/destroy pair) never leaks memory, never frees twice and never touches freed memory; every block is released with the layout it was allocated with. Queries and text output into a caller's sink allocate nothing that outlives them.",
 ['histories'],'all sequences of create, clone, move, query, overwrite and destroy to a depth',
 'Tests do not look at allocations; the leak or double free needs a particular sequence.',
 [POS],[('Box::leak/from_raw',POS+' Position_startpos, Position_destruct')],['calls received by the global allocator'])
p('C29','Answers do not depend on the kind of target',
 "On targets of other word sizes and byte orders (32 and 64 bits, little- and big-endian) every function gives the same answers as on the one it is tested on: values, sets, moves and their compact form, positions, comparisons and texts. Hash values themselves may differ.",
 ['inputs','histories'],'all values and operation sequences, on each kind of target',
 'Tests run on one target; the crate is written for WebAssembly and other 32-bit targets too, and computes with packed words, bytes and shifts.',
 [S+'bitboard.rs',S+'hand.rs',S+'mv.rs',S+'square.rs',POS,S+'common.rs'],[('packed representations',S+'bitboard.rs Bitboard, ByteSwappedBitboard; '+S+'hand.rs Hand; '+S+'mv.rs CompactMove')],['results of a workload on each target'])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import sys
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
    print('valid',len(P))
except ImportError: print('written',len(P))
