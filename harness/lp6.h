// The documented LPDDR6 burst layout.
#ifndef VERIF_LP6_H
#define VERIF_LP6_H
#include <cstdint>
#include <vector>
// LPDDR6: 24 beats of 12 lines; on four lines, beats 8..11 carry metadata and beats 20..23 the inversion flags
inline std::vector<std::vector<bool>> lp6Beats(const uint8_t *data, int half, uint16_t meta, uint32_t flags) {
    std::vector<std::vector<bool>> out(24, std::vector<bool>(12));
    int payload = 0;
    for (int quad = 0; quad < 6; ++quad) {                       // four beats at a time
        int carriers = quad == 2 || quad == 5 ? 8 : 12;          // lines that carry payload in these beats
        int pos = 0;
        for (int dq = 0; dq < 12; ++dq) {
            bool special = dq == 4 || dq == 5 || dq == 10 || dq == 11;
            int sl = dq == 4 ? 0 : dq == 5 ? 1 : dq == 10 ? 2 : 3;
            for (int b = 0; b < 4; ++b) {
                int beat = quad * 4 + b; bool v;
                if (carriers == 8 && special) v = quad == 2 ? (meta >> (sl * 4 + b)) & 1 : (flags >> (16 * half + sl * 4 + b)) & 1;
                else { int bit = half * 256 + payload + pos * 4 + b; v = (data[bit / 8] >> (bit % 8)) & 1; }
                out[(size_t)beat][(size_t)dq] = v;
            }
            if (!(carriers == 8 && special)) ++pos;
        }
        payload += carriers * 4;
    }
    return out;
}
#endif
