/* A C program as a user writes it: knows the library by its header alone. Says each call it makes and what came of it,
   one line each: function|arguments...|result. Bytes and texts are in hex. */
#include "keychain.h"
#include <stdio.h>
#include <string.h>

static FILE *out;
static KeychainManagerPtr manager;

static void hexs(const uint8_t *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { fputc(d[p[i] >> 4], out); fputc(d[p[i] & 15], out); }
}
static void text(const char *s) { hexs((const uint8_t *)s, strlen(s)); }
static const char *error_name(ErrorType t) {
  switch (t) {
    case Panic: return "Panic";
    case WrongPassword: return "WrongPassword";
    case NotEnoughData: return "NotEnoughData";
    case SeedIsNotSaved: return "SeedIsNotSaved";
    case CantCalculateSeedSize: return "CantCalculateSeedSize";
    case DataError: return "DataError";
    case InvalidSeedSize: return "InvalidSeedSize";
    case KeyDoesNotExist: return "KeyDoesNotExist";
    case KeyAlreadyExist: return "KeyAlreadyExist";
    case NetworkIsNotSupported: return "NetworkIsNotSupported";
    case KeyError: return "KeyError";
    case KeyPathError: return "KeyPathError";
    case MnemonicError: return "MnemonicError";
  }
  return "unknown";
}
static const char *language_name(Language l) {
  switch (l) {
    case English: return "English";
    case French: return "French";
    case Japanese: return "Japanese";
    case Korean: return "Korean";
    case ChineseSimplified: return "ChineseSimplified";
    case ChineseTraditional: return "ChineseTraditional";
    case Italian: return "Italian";
    case Spanish: return "Spanish";
  }
  return "unknown";
}
static const Language LANGUAGES[] = {English, French, Japanese, Korean, ChineseSimplified, ChineseTraditional, Italian, Spanish};

/* Guards around what the library writes. */
#define G 0x5a
#define SLOT(T, name) struct { uint8_t before[16]; T v; uint8_t after[16]; } name; memset(&name, G, sizeof name)
#define WHOLE(name) (whole(name.before) && whole(name.after))
static int whole(const uint8_t *p) { for (int i = 0; i < 16; i++) if (p[i] != G) return 0; return 1; }
static int untouched(const void *p, size_t n) { for (size_t i = 0; i < n; i++) if (((const uint8_t *)p)[i] != G) return 0; return 1; }

static void failed(ErrorPtr *e) {
  fprintf(out, "|error %s ", error_name(e->error_type));
  text(e->message);
  fputc('\n', out);
  delete_error(e);
  delete_error(e);
}
/* The call is made and judged: V is what it writes, SHOW says it. */
#define CALL(T, call, show) do { \
    SLOT(T, r); SLOT(ErrorPtr, e); \
    if (call) { \
      if (!WHOLE(r) || !WHOLE(e) || !untouched(&e.v, sizeof e.v)) { fprintf(out, "|done, and wrote elsewhere\n"); } \
      else { fputs("|done ", out); show; fputc('\n', out); } \
    } else { \
      if (!WHOLE(r) || !WHOLE(e) || !untouched(&r.v, sizeof r.v)) { fprintf(out, "|error, and wrote elsewhere\n"); } \
      else failed(&e.v); \
    } } while (0)

static void path_text(KeyPath p) { fprintf(out, "%u %u %u %u %u", (unsigned)p.purpose, (unsigned)p.coin, (unsigned)p.account, (unsigned)p.change, (unsigned)p.address); }

static void parse(const char *s) {
  fputs("path|", out); text(s);
  CALL(KeyPath, keypath_from_string(s, &r.v, &e.v), path_text(r.v));
}
static const uint32_t NUMBERS[] = {0, 1, 2, 255, 256, 65535, 65536, 0x01020304, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0x80010203u, 0xfffffffeu, 0xffffffffu};
#define NN (sizeof NUMBERS / sizeof *NUMBERS)

static void paths(int deep) {
  static const char *const PARTS[] = {"0", "44'", "2147483647'", "65536", "1'", "x", "", "4294967295"};
  int n = 8, count = deep ? n * n * n * n * n : n * n * n * 3;
  char s[256];
  for (int i = 0; i < count; i++) {
    int k = i;
    strcpy(s, "m");
    for (int j = 0; j < 5; j++) {
      int c;
      if (deep || j == (i / 512) || j == (i / 512) + 1 || j == (i / 512) + 2) { c = k % n; k /= n; } else c = (j * 3) % 5;
      strcat(s, "/"); strcat(s, PARTS[c]);
    }
    parse(s);
  }
  static const char *const ODD[] = {"", "m", "/", "m/", "n/44'/0'/0'/0/0", "m/44'/0'/0'/0", "m/44'/0'/0'/0/0/0", "M/44'/0'/0'/0/0", "m/44'/0'/0'/0/0\n", "\xc3\xa9/1/2/3/4/5", "m/1/2/3/4/\xc3\xa9"};
  for (size_t i = 0; i < sizeof ODD / sizeof *ODD; i++) parse(ODD[i]);
  for (size_t a = 0; a < NN; a++) {
#ifdef WITH_FEATURE_ETHEREUM
    fprintf(out, "ethereum|%u", (unsigned)NUMBERS[a]);
    CALL(KeyPath, keypath_ethereum_new(NUMBERS[a], &r.v, &e.v), path_text(r.v));
    fprintf(out, "metamask|%u", (unsigned)NUMBERS[a]);
    CALL(KeyPath, keypath_ethereum_new_metamask(NUMBERS[a], &r.v, &e.v), path_text(r.v));
#endif
    for (size_t c = 0; c < NN; c++)
      for (size_t d = 0; d < NN; d++) {
#ifdef WITH_FEATURE_CARDANO
        fprintf(out, "cardano|%u|%u|%u", (unsigned)NUMBERS[a], (unsigned)NUMBERS[c], (unsigned)NUMBERS[d]);
        CALL(KeyPath, keypath_cardano_new(NUMBERS[a], NUMBERS[c], NUMBERS[d], &r.v, &e.v), path_text(r.v));
#endif
#ifdef WITH_FEATURE_BITCOIN
        for (int t = 0; t < 2; t++) {
          fprintf(out, "bip44|%d|%u|%u|%u", t, (unsigned)NUMBERS[a], (unsigned)NUMBERS[c], (unsigned)NUMBERS[d]);
          CALL(KeyPath, keypath_bitcoin_new_bip44(t, NUMBERS[a], NUMBERS[c], NUMBERS[d], &r.v, &e.v), path_text(r.v));
          fprintf(out, "bip49|%d|%u|%u|%u", t, (unsigned)NUMBERS[a], (unsigned)NUMBERS[c], (unsigned)NUMBERS[d]);
          CALL(KeyPath, keypath_bitcoin_new_bip49(t, NUMBERS[a], NUMBERS[c], NUMBERS[d], &r.v, &e.v), path_text(r.v));
          fprintf(out, "bip84|%d|%u|%u|%u", t, (unsigned)NUMBERS[a], (unsigned)NUMBERS[c], (unsigned)NUMBERS[d]);
          CALL(KeyPath, keypath_bitcoin_new_bip84(t, NUMBERS[a], NUMBERS[c], NUMBERS[d], &r.v, &e.v), path_text(r.v));
        }
#endif
      }
  }
}

/* A copy of bytes the library handed out, which is released (twice: the second time is harmless). */
typedef struct { uint8_t *p; size_t n; } Bytes;
static Bytes keep(DataPtr *d) {
  Bytes b = {malloc(d->len + 1), d->len};
  if (d->len) memcpy(b.p, d->ptr, d->len);
  delete_data(d);
  delete_data(d);
  return b;
}
static void show_data(DataPtr *d) { hexs(d->ptr, d->len); delete_data(d); }

static Network other(uint32_t n) {
  /* the number inside is the header's business: only its size is known */
  Network w;
  memset(&w, 0, sizeof w);
  memcpy(&w, &n, sizeof w < sizeof n ? sizeof w : sizeof n);
  return w;
}
static uint32_t number(Network w) { uint32_t n = 0; memcpy(&n, &w, sizeof w < sizeof n ? sizeof w : sizeof n); return n; }

static size_t networks_of(Network *v) {
  size_t n = 0;
#ifdef WITH_FEATURE_CARDANO
  v[n++] = NETWORK_CARDANO();
#endif
#ifdef WITH_FEATURE_ETHEREUM
  v[n++] = NETWORK_ETHEREUM();
#endif
#ifdef WITH_FEATURE_BITCOIN
  v[n++] = NETWORK_BITCOIN();
#endif
  v[n++] = other(0x80000717u);
  v[n++] = other(0x8000003cu);
  v[n++] = other(0x80000000u);
  v[n++] = other(7);
  return n;
}

static void wallet_in_use(const char *id, KeychainPtr *k, int full) {
  Network nets[8];
  size_t nn = networks_of(nets);
  static const KeyPath PATHS[] = {
    {.purpose = 0x8000002cu, .coin = 0x80000717u, .account = 0x80000000u, .change = 0, .address = 0},
    {.purpose = 0x8000002cu, .coin = 0x80000717u, .account = 0x80000003u, .change = 1, .address = 77},
    {.purpose = 0x8000002cu, .coin = 0x8000003cu, .account = 0x80000000u, .change = 0, .address = 0},
    {.purpose = 0x8000002cu, .coin = 0x8000003cu, .account = 0x80000009u, .change = 0, .address = 0},
    {.purpose = 0x8000002cu, .coin = 0x80000000u, .account = 0x80000000u, .change = 0, .address = 5},
    {.purpose = 0x80000031u, .coin = 0x80000001u, .account = 0x80000002u, .change = 1, .address = 9},
    {.purpose = 0x80000054u, .coin = 0x80000000u, .account = 0x80000000u, .change = 0, .address = 1},
    {.purpose = 1, .coin = 2, .account = 3, .change = 4, .address = 5}};
  static const size_t SIZES[] = {0, 1, 32, 500};
  uint8_t msg[500];
  for (size_t i = 0; i < sizeof msg; i++) msg[i] = (uint8_t)(i * 7 + 3);
  fprintf(out, "networks|%s", id);
  CALL(NetworksPtr, keychain_networks(k, &r.v, &e.v), {
    for (uintptr_t i = 0; i < r.v.count; i++) fprintf(out, "%u ", (unsigned)number(r.v.ptr[i]));
    delete_networks(&r.v);
    delete_networks(&r.v);
  });
  for (size_t n = 0; n < nn; n++)
    for (size_t p = 0; p < sizeof PATHS / sizeof *PATHS; p++) {
      fprintf(out, "key|%s|%u|", id, (unsigned)number(nets[n])); path_text(PATHS[p]);
      CALL(DataPtr, keychain_pub_key(k, nets[n], PATHS[p], &r.v, &e.v), show_data(&r.v));
      for (size_t m = 0; m < 4; m++) {
        if (m && (!full || p % 3 != m % 3)) continue;
        const uint8_t *data = SIZES[m] ? msg : NULL;
        Bytes sig = {NULL, 0};
        fprintf(out, "sign|%s|%u|", id, (unsigned)number(nets[n])); path_text(PATHS[p]); fputc('|', out); hexs(msg, SIZES[m]);
        CALL(DataPtr, keychain_sign(k, nets[n], data, SIZES[m], PATHS[p], &r.v, &e.v), { sig = keep(&r.v); hexs(sig.p, sig.n); });
        if (!sig.p) { sig.p = calloc(1, 70); sig.n = 65; }
        for (int t = 0; t < (full ? 4 : 1); t++) {
          size_t len = t == 3 ? 0 : t == 2 ? sig.n - 1 : sig.n;
          if (t == 1) sig.p[9] ^= 1;
          fprintf(out, "verify|%s|%u|", id, (unsigned)number(nets[n])); path_text(PATHS[p]); fputc('|', out); hexs(msg, SIZES[m]); fputc('|', out); hexs(sig.p, len);
          CALL(bool, keychain_verify(k, nets[n], data, SIZES[m], len ? sig.p : NULL, len, PATHS[p], &r.v, &e.v), fputs(r.v ? "true" : "false", out));
        }
        free(sig.p);
      }
    }
}
static void head(const char *what, Bytes c, const char *pw) { fprintf(out, "%s|", what); hexs(c.p, c.n); fputc('|', out); text(pw); }

/* All that can be asked of stored data, and all that can be done with it, again and again. */
static int names;
static void histories(Bytes c, const char *pw, int depth) {
  char id[16];
  sprintf(id, "w%d", names++);
  KeychainPtr k;
  int open = 0;
  head("open", c, pw); fprintf(out, "|%s", id);
  CALL(KeychainPtr, keychain_manager_keychain_from_data(&manager, c.p, c.n, pw, &r.v, &e.v), { k = r.v; open = 1; });
  if (open) {
    wallet_in_use(id, &k, depth || names < 4);
    delete_keychain(&k);
    delete_keychain(&k);
  }
#ifdef WITH_FEATURE_BACKUP
  head("phrase", c, pw);
  CALL(MnemonicInfoPtr, keychain_manager_retrieve_mnemonic(&manager, c.p, c.n, pw, &r.v, &e.v), {
    text(r.v.mnemonic);
    fprintf(out, " %s", language_name(r.v.language));
    delete_mnemonic_info(&r.v);
    delete_mnemonic_info(&r.v);
  });
  head("keys", c, pw);
  CALL(KeyBackupPtr, keychain_manager_get_keys_data(&manager, c.p, c.n, pw, &r.v, &e.v), {
    for (uintptr_t i = 0; i < r.v.count; i++) {
      fprintf(out, "%u:", (unsigned)number(r.v.ptr[i].network));
      hexs(r.v.ptr[i].data.ptr, r.v.ptr[i].data.len);
      fputc(' ', out);
    }
    delete_key_backup(&r.v);
    delete_key_backup(&r.v);
  });
#endif
  if (!depth) return;
  Network nets[8];
  size_t nn = networks_of(nets);
  for (size_t n = 0; n < nn; n++) {
    Bytes next = {NULL, 0};
    head("add", c, pw); fprintf(out, "|%u", (unsigned)number(nets[n]));
    CALL(DataPtr, keychain_manager_add_network(&manager, c.p, c.n, pw, nets[n], &r.v, &e.v), { next = keep(&r.v); hexs(next.p, next.n); });
    if (next.p) { histories(next, pw, depth - 1); free(next.p); }
  }
  static const char *const NEW[] = {"another", ""};
  for (int i = 0; i < 2; i++) {
    Bytes next = {NULL, 0};
    head("password", c, pw); fputc('|', out); text(NEW[i]);
    CALL(DataPtr, keychain_manager_change_password(&manager, c.p, c.n, pw, NEW[i], &r.v, &e.v), { next = keep(&r.v); hexs(next.p, next.n); });
    if (next.p) { if (i == 0) histories(next, NEW[i], depth - 1); free(next.p); }
  }
}
static int value(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main(int argc, char **argv) {
  if (argc != 4) return 2;
  int deep = atoi(argv[2]);
  FILE *in = fopen(argv[1], "r");
  out = fopen(argv[3], "w");
  if (!in || !out) return 2;
  keychain_init_library();
  fputs("new", out);
  int ready = 0;
  CALL(KeychainManagerPtr, keychain_manager_new(&r.v, &e.v), { manager = r.v; ready = 1; });
  if (!ready) { fprintf(out, "end\n"); fclose(out); return 0; }
#ifdef WITH_FEATURE_CARDANO
  fprintf(out, "number|cardano|%u\n", (unsigned)number(NETWORK_CARDANO()));
#endif
#ifdef WITH_FEATURE_ETHEREUM
  fprintf(out, "number|ethereum|%u\n", (unsigned)number(NETWORK_ETHEREUM()));
#endif
#ifdef WITH_FEATURE_BITCOIN
  fprintf(out, "number|bitcoin|%u\n", (unsigned)number(NETWORK_BITCOIN()));
#endif
  Network nets[8];
  size_t nn = networks_of(nets);
  for (size_t i = 0; i < nn; i++) {
    fprintf(out, "has|%u", (unsigned)number(nets[i]));
    CALL(bool, keychain_manager_has_network(&manager, nets[i], &r.v, &e.v), fputs(r.v ? "true" : "false", out));
  }
  paths(deep);
  for (int l = 0; l < 8; l++) {
    char *phrase = NULL;
    fprintf(out, "generate|%s", language_name(LANGUAGES[l]));
    CALL(CharPtr, keychain_manager_generate_mnemonic(&manager, LANGUAGES[l], &r.v, &e.v), {
      phrase = malloc(strlen(r.v) + 1);
      strcpy(phrase, r.v);
      text(phrase);
      delete_string(r.v);
    });
    if (!phrase) continue;
    for (int m = 0; m < 8; m++) {
      Bytes next = {NULL, 0};
      fputs("from phrase|", out); text(phrase); fputc('|', out); text("pw"); fprintf(out, "|%s", language_name(LANGUAGES[m]));
      CALL(DataPtr, keychain_manager_keychain_data_from_mnemonic(&manager, phrase, "pw", LANGUAGES[m], &r.v, &e.v), { next = keep(&r.v); hexs(next.p, next.n); });
      if (next.p) { histories(next, "pw", 0); free(next.p); }
    }
    free(phrase);
  }
  uint8_t seed[70];
  for (int i = 0; i < 70; i++) seed[i] = (uint8_t)(i * 5 + 1);
  for (int n = 0; n <= 66; n++) {
    if (n > 1 && n < 31) continue;
    Bytes next = {NULL, 0};
    fputs("from seed|", out); hexs(seed, n); fputc('|', out); text("p\xc3\xa9");
    CALL(DataPtr, keychain_manager_keychain_data_from_seed(&manager, n ? seed : NULL, n, "p\xc3\xa9", &r.v, &e.v), { next = keep(&r.v); hexs(next.p, next.n); });
    if (next.p) { histories(next, "p\xc3\xa9", 0); free(next.p); }
  }
  /* wallets made elsewhere */
  static char lineb[1 << 16];
  while (fgets(lineb, sizeof lineb, in)) {
    size_t n = strcspn(lineb, "\n") / 2;
    Bytes c = {malloc(n + 1), n};
    for (size_t i = 0; i < n; i++) c.p[i] = (uint8_t)(value(lineb[2 * i]) * 16 + value(lineb[2 * i + 1]));
    histories(c, "pw", deep ? 2 : 1);
    histories(c, "wrong", 1);
    Bytes cut = {c.p, n < 59 ? n : 59};
    histories(cut, "pw", 1);
    free(c.p);
  }
  delete_keychain_manager(&manager);
  delete_keychain_manager(&manager);
  fprintf(out, "end\n");
  return fclose(out) != 0;
}
