#include "ops.h"
#include <stdlib.h>
#include <signal.h>
static int seq[16], len[16], pos, tot; static int choose(int n) { if (pos >= tot) { seq[tot] = 0; len[tot] = n; tot++; } len[pos] = n; return seq[pos++]; }
static int next() { while (tot > 0) { if (++seq[tot - 1] < len[tot - 1]) return 1; tot--; } return 0; }
static struct sockaddr_in bh, cl;
int main(int c, char **v) { signal(SIGPIPE, SIG_IGN);
	int bl = lsn(0, &bh), r, x[4]; for (int i = 0; i < 4; i++) { x[i] = cli(&bh, &r); usleep(2000); } int q = lsn(1, &cl); close(q);
	int depth[7] = { atoi(v[1]), 5, 5, 6, 6, 5, 3 }; char path[64]; snprintf(path, sizeof path, "%s/f", v[2]);
	for (int fam = 0; fam < 7; fam++) { tot = 0; do { pos = 0; ln_ = 0; lg[0] = 0;
		switch (fam) { case 0: pair_ops(choose, depth[0]); break; case 1: syn_ops(choose, depth[1], &bh); break; case 2: ref_ops(choose, depth[2], &cl); break; case 3: lis_ops(choose, depth[3]); break; case 4: efd_ops(choose, depth[4]); break; case 5: udp_ops(choose, depth[5]); break; case 6: file_ops(choose, depth[6], path); break; }
		printf("%d:", fam); for (int i = 0; i < tot; i++) printf("%c", 'a' + seq[i]); printf("\t%s\n", lg);
	} while (next()); }
}
