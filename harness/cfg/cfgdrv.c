/* A C application written against the generated header of one build configuration.
   Reads one request per line (tab separated, byte strings in hex), writes one reply. */
#include "keychain.h"
#include <stdio.h>
#include <string.h>

static char *line, *arg[16];
static size_t cap;
static unsigned char *bytes(const char *h, size_t *n) {
  size_t l = strcmp(h, "-") ? strlen(h) / 2 : 0, i;
  unsigned char *b = malloc(l + 1);
  for (i = 0; i < l; i++) {
    unsigned v;
    sscanf(h + 2 * i, "%2x", &v);
    b[i] = (unsigned char)v;
  }
  b[l] = 0;
  if (n) *n = l;
  return b;
}
static void hex(const void *p, size_t n) {
  const unsigned char *b = p;
  if (!n) putchar('-');
  while (n--) printf("%02x", *b++);
}
static const char *kind(ErrorType t) {
  switch (t) {
    case Panic: return "Panic";
    case WrongPassword: return "WrongPassword";
    case NotEnoughData: return "NotEnoughData";
    case SeedIsNotSaved: return "SeedIsNotSaved";
    case CantCalculateSeedSize: return "CantCalculateSeedSize";
    case DataError: return "DataError";
    case InvalidSeedSize: return "InvalidSeedSize";
    case KeyDoesNotExist: return "KeyDoesNotExist";
    case KeyAlreadyExist: return "KeyAlreadyExist";
    case NetworkIsNotSupported: return "NetworkIsNotSupported";
    case KeyError: return "KeyError";
    case KeyPathError: return "KeyPathError";
    case MnemonicError: return "MnemonicError";
  }
  return "unknown";
}
static void fail(ErrorPtr *e) {
  printf("E\t%s\t-\t", kind(e->error_type));
  hex(e->message, e->message ? strlen(e->message) : 0);
  putchar('\n');
  delete_error(e);
}
static void data(bool ok, DataPtr *d, ErrorPtr *e) {
  if (!ok) { fail(e); return; }
  printf("O\t");
  hex(d->ptr, d->len);
  putchar('\n');
  delete_data(d);
}
static void path(bool ok, KeyPath *p, ErrorPtr *e) {
  if (!ok) { fail(e); return; }
  printf("O\t%u,%u,%u,%u,%u\n", p->purpose, p->coin, p->account, p->change, p->address);
}
static uint32_t u(int i) { return (uint32_t)strtoul(arg[i], 0, 10); }
static KeyPath kp(int i) {
  KeyPath p;
  sscanf(arg[i], "%u,%u,%u,%u,%u", &p.purpose, &p.coin, &p.account, &p.change, &p.address);
  return p;
}
#define MAX 64
static KeychainManagerPtr mgr[MAX];
static KeychainPtr kc[MAX];
static int mgrs, kcs[MAX];

static void run(void) {
  const char *op = arg[0];
  ErrorPtr e;
  DataPtr d;
  KeyPath p;
  Network nw;
  size_t n, m;
  memset(&e, 0, sizeof e);
  memset(&d, 0, sizeof d);
  if (!strcmp(op, "info")) {
    printf("O");
#ifdef WITH_FEATURE_BITCOIN
    printf("\tbitcoin:%u", NETWORK_BITCOIN()._0);
#endif
#ifdef WITH_FEATURE_ETHEREUM
    printf("\tethereum:%u", NETWORK_ETHEREUM()._0);
#endif
#ifdef WITH_FEATURE_CARDANO
    printf("\tcardano:%u", NETWORK_CARDANO()._0);
#endif
#ifdef WITH_FEATURE_BACKUP
    printf("\tbackup:1");
#endif
    putchar('\n');
  } else if (!strcmp(op, "new")) {
    if (!keychain_manager_new(&mgr[mgrs], &e)) { fail(&e); return; }
    printf("O\t%d\n", mgrs++);
  } else if (!strcmp(op, "has")) {
    bool has = false;
    nw._0 = u(2);
    if (!keychain_manager_has_network(&mgr[u(1)], nw, &has, &e)) { fail(&e); return; }
    printf("O\t%s\n", has ? "true" : "false");
  } else if (!strcmp(op, "gen")) {
    CharPtr s = 0;
    if (!keychain_manager_generate_mnemonic(&mgr[u(1)], (Language)u(2), &s, &e)) { fail(&e); return; }
    printf("O\t");
    hex(s, strlen(s));
    putchar('\n');
    delete_string(s);
  } else if (!strcmp(op, "data_seed")) {
    unsigned char *s = bytes(arg[2], &n), *pw = bytes(arg[3], 0);
    data(keychain_manager_keychain_data_from_seed(&mgr[u(1)], s, n, (CharPtr)pw, &d, &e), &d, &e);
    free(s), free(pw);
  } else if (!strcmp(op, "data_mn")) {
    unsigned char *s = bytes(arg[2], 0), *pw = bytes(arg[3], 0);
    data(keychain_manager_keychain_data_from_mnemonic(&mgr[u(1)], (CharPtr)s, (CharPtr)pw, (Language)u(4), &d, &e), &d, &e);
    free(s), free(pw);
  } else if (!strcmp(op, "chpw")) {
    unsigned char *s = bytes(arg[2], &n), *a = bytes(arg[3], 0), *b = bytes(arg[4], 0);
    data(keychain_manager_change_password(&mgr[u(1)], s, n, (CharPtr)a, (CharPtr)b, &d, &e), &d, &e);
    free(s), free(a), free(b);
  } else if (!strcmp(op, "addnet")) {
    unsigned char *s = bytes(arg[2], &n), *a = bytes(arg[3], 0);
    nw._0 = u(4);
    data(keychain_manager_add_network(&mgr[u(1)], s, n, (CharPtr)a, nw, &d, &e), &d, &e);
    free(s), free(a);
  } else if (!strcmp(op, "open")) {
    unsigned char *s = bytes(arg[2], &n), *a = bytes(arg[3], 0);
    int i = 0;
    bool ok;
    NetworksPtr w;
    while (kcs[i]) i++;
    ok = keychain_manager_keychain_from_data(&mgr[u(1)], s, n, (CharPtr)a, &kc[i], &e);
    free(s), free(a);
    if (!ok) { fail(&e); return; }
    kcs[i] = 1;
    if (!keychain_networks(&kc[i], &w, &e)) { fail(&e); return; }
    printf("O\t%d", i);
    for (m = 0; m < w.count; m++) printf("\t%u", w.ptr[m]._0);
    putchar('\n');
    delete_networks(&w);
  } else if (!strcmp(op, "kc_free")) {
    delete_keychain(&kc[u(1)]);
    kcs[u(1)] = 0;
    printf("O\n");
  } else if (!strcmp(op, "pk")) {
    nw._0 = u(2);
    data(keychain_pub_key(&kc[u(1)], nw, kp(3), &d, &e), &d, &e);
  } else if (!strcmp(op, "sign")) {
    unsigned char *s = bytes(arg[4], &n);
    nw._0 = u(2);
    data(keychain_sign(&kc[u(1)], nw, s, n, kp(3), &d, &e), &d, &e);
    free(s);
  } else if (!strcmp(op, "verify")) {
    unsigned char *s = bytes(arg[4], &n), *g = bytes(arg[5], &m);
    bool r = false, ok;
    nw._0 = u(2);
    ok = keychain_verify(&kc[u(1)], nw, s, n, g, m, kp(3), &r, &e);
    free(s), free(g);
    if (!ok) { fail(&e); return; }
    printf("O\t%s\n", r ? "true" : "false");
  } else if (!strcmp(op, "parse")) {
    unsigned char *s = bytes(arg[1], 0);
    path(keypath_from_string((CharPtr)s, &p, &e), &p, &e);
    free(s);
#ifdef WITH_FEATURE_BITCOIN
  } else if (!strcmp(op, "btc44")) {
    path(keypath_bitcoin_new_bip44(u(1), u(2), u(3), u(4), &p, &e), &p, &e);
  } else if (!strcmp(op, "btc49")) {
    path(keypath_bitcoin_new_bip49(u(1), u(2), u(3), u(4), &p, &e), &p, &e);
  } else if (!strcmp(op, "btc84")) {
    path(keypath_bitcoin_new_bip84(u(1), u(2), u(3), u(4), &p, &e), &p, &e);
#endif
#ifdef WITH_FEATURE_ETHEREUM
  } else if (!strcmp(op, "eth")) {
    path(keypath_ethereum_new(u(1), &p, &e), &p, &e);
  } else if (!strcmp(op, "metamask")) {
    path(keypath_ethereum_new_metamask(u(1), &p, &e), &p, &e);
#endif
#ifdef WITH_FEATURE_CARDANO
  } else if (!strcmp(op, "ada")) {
    path(keypath_cardano_new(u(1), u(2), u(3), &p, &e), &p, &e);
#endif
#ifdef WITH_FEATURE_BACKUP
  } else if (!strcmp(op, "keys_data")) {
    unsigned char *s = bytes(arg[2], &n), *a = bytes(arg[3], 0);
    KeyBackupPtr k;
    bool ok = keychain_manager_get_keys_data(&mgr[u(1)], s, n, (CharPtr)a, &k, &e);
    free(s), free(a);
    if (!ok) { fail(&e); return; }
    printf("O");
    for (m = 0; m < k.count; m++) {
      printf("\t%u:", k.ptr[m].network._0);
      hex(k.ptr[m].data.ptr, k.ptr[m].data.len);
    }
    putchar('\n');
    delete_key_backup(&k);
  } else if (!strcmp(op, "retr_mn")) {
    unsigned char *s = bytes(arg[2], &n), *a = bytes(arg[3], 0);
    MnemonicInfoPtr k;
    bool ok = keychain_manager_retrieve_mnemonic(&mgr[u(1)], s, n, (CharPtr)a, &k, &e);
    free(s), free(a);
    if (!ok) { fail(&e); return; }
    printf("O\t");
    hex(k.mnemonic, strlen(k.mnemonic));
    printf("\t%d\n", (int)k.language);
    delete_mnemonic_info(&k);
#endif
  } else printf("X\n");
}
int main(void) {
  ssize_t l;
  keychain_init_library();
  while ((l = getline(&line, &cap, stdin)) > 0) {
    int n = 0;
    char *s = line, *t;
    if (line[l - 1] == '\n') line[--l] = 0;
    memset(arg, 0, sizeof arg);
    while (s && n < 15) {
      arg[n++] = s;
      t = strchr(s, '\t');
      if (t) *t++ = 0;
      s = t;
    }
    run();
    fflush(stdout);
  }
  return 0;
}
