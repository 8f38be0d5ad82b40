// Calls every function of shogi_core.h through the header's own declarations. The functions are looked up in a library
// given at run time; structures are passed to and from the caller (the explorer) through memory.
#define DEFINE_ALLOC
#define DEFINE_EXPERIMENTAL
#include <shogi_core.h>
#include <string.h>

#define FUNCTIONS(X) \
    X(Bitboard_bitand) X(Bitboard_bitand_assign) X(Bitboard_bitor) X(Bitboard_bitor_assign) X(Bitboard_bitxor) \
    X(Bitboard_bitxor_assign) X(Bitboard_contains) X(Bitboard_count) X(Bitboard_empty) X(Bitboard_flip) \
    X(Bitboard_is_empty) X(Bitboard_not) X(Bitboard_pop) X(Bitboard_single) X(Color_flip) X(CompactMove_drop) \
    X(CompactMove_from) X(CompactMove_is_drop) X(CompactMove_is_promoting) X(CompactMove_normal) X(CompactMove_to) \
    X(GameResolution_from_u8_unchecked) X(Game_position) X(Game_resolution) X(Game_resolve) X(Game_unresolve) \
    X(Hand_add) X(Hand_count) X(Hand_is_hand_piece) X(Hand_new) X(Hand_remove) X(IllegalMoveKind_from_u8_unchecked) \
    X(PartialGame_position) X(PartialGame_resolution) X(PartialGame_resolve) X(PartialGame_unresolve) \
    X(PartialPosition_hand_of_a_player) X(PartialPosition_last_compact_move) X(PartialPosition_make_compact_move) \
    X(PartialPosition_occupied_bitboard) X(PartialPosition_piece_at) X(PartialPosition_piece_bitboard) \
    X(PartialPosition_piece_kind_bitboard) X(PartialPosition_player_bitboard) X(PartialPosition_ply) \
    X(PartialPosition_side_to_move) X(PartialPosition_startpos) X(PartialPosition_to_sfen_c) \
    X(PartialPosition_vacant_bitboard) X(PieceKind_from_u8) X(PieceKind_from_u8_unchecked) X(PieceKind_promote) \
    X(PieceKind_unpromote) X(Piece_color) X(Piece_new) X(Piece_piece_kind) X(Piece_promote) X(Piece_unpromote) \
    X(Position_destruct) X(Position_hand_of_a_player) X(Position_initial_position) X(Position_inner) \
    X(Position_last_compact_move) X(Position_make_compact_move) X(Position_occupied_bitboard) X(Position_piece_at) \
    X(Position_piece_bitboard) X(Position_player_bitboard) X(Position_ply) X(Position_side_to_move) \
    X(Position_startpos) X(Position_to_sfen_c) X(Position_vacant_bitboard) X(Square_file) X(Square_flip) \
    X(Square_from_u8) X(Square_from_u8_unchecked) X(Square_index) X(Square_new) X(Square_new_relative) X(Square_rank) \
    X(Square_relative_file) X(Square_relative_rank) X(Square_shift)

typedef struct Api {
#define X(f) __typeof__(f) *f;
    FUNCTIONS(X)
#undef X
} Api;

size_t shim_api_size(void) { return sizeof(Api); }
// Fills the table. Returns the name of a function that the library lacks, or NULL.
const char *shim_load(Api *a, void *(*find)(void *, const char *), void *lib) {
#define X(f) if (!(a->f = (__typeof__(f) *)find(lib, #f))) return #f;
    FUNCTIONS(X)
#undef X
    return NULL;
}

// Sizes and offsets of the structures that C code sees.
void shim_layout(size_t *out) {
    size_t v[] = {
        sizeof(Bitboard), _Alignof(Bitboard), sizeof(Hand), _Alignof(Hand), sizeof(PartialPosition), _Alignof(PartialPosition),
        sizeof(Color), sizeof(Square), sizeof(Piece), sizeof(PieceKind), sizeof(CompactMove), sizeof(GameResolution), sizeof(IllegalMoveKind),
        sizeof(OptionSquare), sizeof(OptionPiece), sizeof(OptionPieceKind), sizeof(OptionCompactMove), sizeof(OptionGameResolution),
    };
    for (size_t i = 0; i < sizeof v / sizeof *v; i++) out[i] = v[i];
}
void shim_constants(unsigned *out) {
    unsigned v[] = {
        Color_NUM, PieceKind_OPTION_NUM, Square_NUM, Piece_NUM, Hand_NUM_HAND_PIECES, Black, White,
        BlackWins, WhiteWins, Draw, Rematch, Aborted,
        TwoPawns, IgnoredCheck, DropPawnMate, DropStuck, NormalStuck, GameFinished, IncorrectMove,
        Pawn, Lance, Knight, Silver, Gold, Bishop, Rook, King, ProPawn, ProLance, ProKnight, ProSilver, ProBishop, ProRook,
    };
    for (size_t i = 0; i < sizeof v / sizeof *v; i++) out[i] = v[i];
}
// What a C program reads in a position, field by field. Fields that this version of the header does not have (-DHAS_... tells) are left
// alone; `present` says which were read.
typedef struct Fields {
    uint64_t side, ply, last, king[2], present;
    uint8_t hands[2][8], board[81], pad[7];
    Bitboard player[2], piece[14];
} Fields;
void shim_fields(const PartialPosition *p, Fields *f) {
    f->present = 0;
#ifdef HAS_side
    f->side = p->side; f->present |= 1;
#endif
#ifdef HAS_ply
    f->ply = p->ply; f->present |= 2;
#endif
#ifdef HAS_last_move
    f->last = p->last_move; f->present |= 4;
#endif
#ifdef HAS_king_square
    for (int i = 0; i < 2; i++) f->king[i] = p->king_square[i];
    f->present |= 8;
#endif
#ifdef HAS_hands
    for (int i = 0; i < 2; i++) memcpy(f->hands[i], &p->hands[i], sizeof(Hand) < 8 ? sizeof(Hand) : 8);
    f->present |= 16;
#endif
#ifdef HAS_player_bb
    for (int i = 0; i < 2; i++) f->player[i] = p->player_bb[i];
    f->present |= 32;
#endif
#ifdef HAS_piece_bb
    for (int i = 0; i < 14; i++) f->piece[i] = p->piece_bb[i];
    f->present |= 64;
#endif
#ifdef HAS_board
    for (int i = 0; i < 81; i++) f->board[i] = p->board[i];
    f->present |= 128;
#endif
}

// bitboards: op 0 and, 1 or, 2 xor, 3..5 the same in place, 6 not, 7 flip, 8 empty
void s_bb(const Api *a, unsigned op, Bitboard *x, const Bitboard *y, Bitboard *out) {
    switch (op) {
    case 0: *out = a->Bitboard_bitand(*x, *y); break;
    case 1: *out = a->Bitboard_bitor(*x, *y); break;
    case 2: *out = a->Bitboard_bitxor(*x, *y); break;
    case 3: a->Bitboard_bitand_assign(x, *y); break;
    case 4: a->Bitboard_bitor_assign(x, *y); break;
    case 5: a->Bitboard_bitxor_assign(x, *y); break;
    case 6: *out = a->Bitboard_not(*x); break;
    case 7: *out = a->Bitboard_flip(*x); break;
    default: *out = a->Bitboard_empty(); break;
    }
}
void s_bb_single(const Api *a, Square s, Bitboard *out) { *out = a->Bitboard_single(s); }
unsigned s_bb_contains(const Api *a, const Bitboard *x, Square s) { return a->Bitboard_contains(*x, s); }
unsigned s_bb_count(const Api *a, const Bitboard *x) { return a->Bitboard_count(*x); }
unsigned s_bb_is_empty(const Api *a, const Bitboard *x) { return a->Bitboard_is_empty(*x); }
unsigned s_bb_pop(const Api *a, Bitboard *x) { return a->Bitboard_pop(x); }
// All squares contained, by asking for each.
void s_bb_mask(const Api *a, const Bitboard *x, uint64_t out[2]) {
    out[0] = out[1] = 0;
    for (unsigned i = 0; i < Square_NUM; i++)
        if (a->Bitboard_contains(*x, a->Square_from_u8_unchecked((uint8_t)(i + 1)))) out[i / 64] |= (uint64_t)1 << i % 64;
}

// squares
unsigned s_sq_new(const Api *a, uint8_t f, uint8_t r) { return a->Square_new(f, r); }
unsigned s_sq_new_rel(const Api *a, uint8_t f, uint8_t r, Color c) { return a->Square_new_relative(f, r, c); }
unsigned s_sq_from(const Api *a, uint8_t n) { return a->Square_from_u8(n); }
unsigned s_sq_from_unchecked(const Api *a, uint8_t n) { return a->Square_from_u8_unchecked(n); }
unsigned s_sq_get(const Api *a, unsigned what, Square s, Color c) {
    switch (what) {
    case 0: return a->Square_file(s);
    case 1: return a->Square_rank(s);
    case 2: return a->Square_index(s);
    case 3: return a->Square_flip(s);
    case 4: return a->Square_relative_file(s, c);
    default: return a->Square_relative_rank(s, c);
    }
}
unsigned s_sq_shift(const Api *a, Square s, int8_t f, int8_t r) { return a->Square_shift(s, f, r); }

// pieces and small enums
unsigned s_color_flip(const Api *a, Color c) { return a->Color_flip(c); }
unsigned s_kind(const Api *a, unsigned what, uint8_t k) {
    switch (what) {
    case 0: return a->PieceKind_from_u8(k);
    case 1: return a->PieceKind_from_u8_unchecked(k);
    case 2: return a->PieceKind_promote(k);
    case 3: return a->PieceKind_unpromote(k);
    case 4: return a->Hand_is_hand_piece(k);
    case 5: return a->GameResolution_from_u8_unchecked(k);
    default: return a->IllegalMoveKind_from_u8_unchecked(k);
    }
}
unsigned s_piece_new(const Api *a, PieceKind k, Color c) { return a->Piece_new(k, c); }
unsigned s_piece(const Api *a, unsigned what, Piece p) {
    switch (what) {
    case 0: return a->Piece_color(p);
    case 1: return a->Piece_piece_kind(p);
    case 2: return a->Piece_promote(p);
    default: return a->Piece_unpromote(p);
    }
}

// moves
unsigned s_mv_normal(const Api *a, Square f, Square t, unsigned promote) { return a->CompactMove_normal(f, t, promote != 0); }
unsigned s_mv_drop(const Api *a, Piece p, Square t) { return a->CompactMove_drop(p, t); }
unsigned s_mv(const Api *a, unsigned what, CompactMove m) {
    switch (what) {
    case 0: return a->CompactMove_from(m);
    case 1: return a->CompactMove_to(m);
    case 2: return a->CompactMove_is_drop(m);
    default: return a->CompactMove_is_promoting(m);
    }
}

// hands
void s_hand_new(const Api *a, Hand *out) { *out = a->Hand_new(); }
unsigned s_hand_count(const Api *a, const Hand *h, PieceKind k) { return a->Hand_count(*h, k); }
unsigned s_hand_add(const Api *a, Hand *h, PieceKind k) { return a->Hand_add(h, k); }
unsigned s_hand_remove(const Api *a, Hand *h, PieceKind k) { return a->Hand_remove(h, k); }

// positions: kind 0 for a PartialPosition, 1 for a Position
void s_partial_startpos(const Api *a, PartialPosition *p) { a->PartialPosition_startpos(p); }
void s_partial_copy(PartialPosition *to, const PartialPosition *from) { *to = *from; }
void *s_position_startpos(const Api *a) { return a->Position_startpos(); }
void s_position_destruct(const Api *a, void *p) { a->Position_destruct(p); }
const void *s_position_inner(const Api *a, const void *p) { return a->Position_inner(p); }
const void *s_position_initial(const Api *a, const void *p) { return a->Position_initial_position(p); }
unsigned s_make(const Api *a, unsigned kind, void *p, CompactMove m) {
    return kind ? a->Position_make_compact_move(p, m) : a->PartialPosition_make_compact_move(p, m);
}
void s_sfen(const Api *a, unsigned kind, const void *p, uint8_t *buf) {
    if (kind) a->Position_to_sfen_c(p, buf);
    else a->PartialPosition_to_sfen_c(p, buf);
}
typedef struct Seen {
    uint64_t side, ply, last;
    uint8_t at[81], count[2][16], pad[7];
    Bitboard occupied, vacant, player[2], piece[31], kinds[15];
} Seen;
void s_see(const Api *a, unsigned kind, const void *p, Seen *o) {
#define GET(f, ...) (kind ? a->Position_##f(p, ##__VA_ARGS__) : a->PartialPosition_##f(p, ##__VA_ARGS__))
    o->side = GET(side_to_move);
    o->ply = GET(ply);
    o->last = GET(last_compact_move);
    for (unsigned i = 0; i < 81; i++) o->at[i] = GET(piece_at, a->Square_from_u8_unchecked((uint8_t)(i + 1)));
    for (unsigned c = 0; c < 2; c++) {
        Hand h = GET(hand_of_a_player, (Color)(c + 1));
        for (unsigned k = 1; k <= 14; k++) o->count[c][k] = a->Hand_count(h, (PieceKind)k);
        o->player[c] = GET(player_bitboard, (Color)(c + 1));
        for (unsigned k = 1; k <= 14; k++) o->piece[k + 16 * c] = GET(piece_bitboard, a->Piece_new((PieceKind)k, (Color)(c + 1)));
    }
    o->occupied = GET(occupied_bitboard);
    o->vacant = GET(vacant_bitboard);
    for (unsigned k = 1; k <= 14; k++)
        o->kinds[k] = a->PartialPosition_piece_kind_bitboard(kind ? a->Position_inner(p) : p, (PieceKind)k);
#undef GET
}
