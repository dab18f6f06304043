/* replay of solver-chosen values of rand() */
static const int *vals; static int n, pos;
void verif_rand_set(const int *v, int k) { vals = v; n = k; pos = 0; }
int verif_rand_used(void) { return pos; }
int rand(void) { int i = pos++; return i < n ? vals[i] : 1073741824; }
