// An ordinary C program: prints the positions after every acceptable first move, a digest of the replies to some, and a game.
#define DEFINE_ALLOC
#include <shogi_core.h>
#include <stdio.h>
#include <string.h>

static unsigned long n_moves;
static CompactMove moves[20000];

int main(void) {
    uint8_t buf[139];
    for (int f = 1; f <= 81; f++)
        for (int t = 1; t <= 81; t++)
            for (int p = 0; p < 2; p++)
                moves[n_moves++] = CompactMove_normal(Square_from_u8_unchecked((uint8_t)f), Square_from_u8_unchecked((uint8_t)t), p);
    for (int c = 0; c < 2; c++)
        for (int k = 1; k <= 14; k++)
            for (int t = 1; t <= 81; t++)
                moves[n_moves++] = CompactMove_drop(Piece_new((PieceKind)k, (Color)(c + 1)), Square_from_u8_unchecked((uint8_t)t));
    PartialPosition start;
    PartialPosition_startpos(&start);
    PartialPosition_to_sfen_c(&start, buf);
    printf("%s\n", (char *)buf);
    unsigned long number = 0, accepted = 0;
    for (unsigned long i = 0; i < n_moves; i++) {
        PartialPosition q = start;
        bool ok = PartialPosition_make_compact_move(&q, moves[i]);
        // One kind of library has 128 KiB for positions with a history and never gives any back.
        if (number < 50 && i % 3 == 0) {
            Position *p = Position_startpos();
            if (Position_make_compact_move(p, moves[i]) != ok) printf("differs: %u\n", (unsigned)moves[i]);
            uint8_t other[139];
            Position_to_sfen_c(p, buf);
            PartialPosition_to_sfen_c(&q, other);
            if (strcmp((char *)buf, (char *)other) != 0) printf("differs: %s\n", (char *)other);
            Position_destruct(p);
            number++;
        }
        if (!ok) continue;
        PartialPosition_to_sfen_c(&q, buf);
        printf("%u %s\n", (unsigned)moves[i], (char *)buf);
        if (++accepted % 16 == 0) {
            uint64_t h = 0xcbf29ce484222325u;
            unsigned n = 0;
            for (unsigned long j = 0; j < n_moves; j++) {
                PartialPosition r = q;
                if (!PartialPosition_make_compact_move(&r, moves[j])) continue;
                n++;
                PartialPosition_to_sfen_c(&r, buf);
                for (uint8_t *s = buf; *s; s++) h = (h ^ *s) * 0x100000001b3u;
            }
            printf("%u replies %016llx\n", n, (unsigned long long)h);
        }
    }
    // A whole game on one position with a history.
    Position *p = Position_startpos();
    for (unsigned i = 0; i < 40; i++)
        for (unsigned long j = 0; j < n_moves; j++)
            if (Position_make_compact_move(p, moves[(j * 7919 + i * 1013) % n_moves])) {
                Position_to_sfen_c(p, buf);
                printf("%s\n", (char *)buf);
                break;
            }
    Position_destruct(p);
    printf("end\n");
    return 0;
}
