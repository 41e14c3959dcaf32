/* What a C program sees of libturtls through the published header: constants, layout, and the
 * library's answers through these declarations.  Prints "name value" lines. */
#include "turtls.h"
#include <stddef.h>
#include <stdio.h>
#include <string.h>

#define V(x) printf("v %s %lld\n", #x, (long long)(x))
#define S(t) printf("v sizeof_%s %zu\n", #t, sizeof(struct t))
#define O(t, f) printf("v %s_%s %zu\n", #t, #f, offsetof(struct t, f))
#define A(x) do { V(x); const char *s = turtls_stringify_alert(x); printf("s %d ", x); for (; s && *s; s++) printf("%02x", (unsigned char)*s); printf("\n"); } while (0)

static ptrdiff_t wr(const void *b, size_t n, const void *c) { (void)b; (void)c; return (ptrdiff_t)n; }
static ptrdiff_t rd(void *b, size_t n, const void *c) { (void)b; (void)n; (void)c; return 0; }
static void cl(const void *c) { (void)c; }

int main(void) {
    A(TURTLS_ALERT_CLOSE_NOTIFY); A(TURTLS_ALERT_UNEXPECTED_MESSAGE); A(TURTLS_ALERT_BAD_RECORD_MAC); A(TURTLS_ALERT_RECORD_OVERFLOW);
    A(TURTLS_ALERT_HANDSHAKE_FAILURE); A(TURTLS_ALERT_BAD_CERT); A(TURTLS_ALERT_UNSUPPORTED_CERT); A(TURTLS_ALERT_CERT_REVOKED);
    A(TURTLS_ALERT_CERT_EXPIRED); A(TURTLS_ALERT_CERT_UNKNOWN); A(TURTLS_ALERT_ILLEGAL_PARAM); A(TURTLS_ALERT_UNKNOWN_CA);
    A(TURTLS_ALERT_ACCESS_DENIED); A(TURTLS_ALERT_DECODE_ERROR); A(TURTLS_ALERT_DECRYPT_ERORR); A(TURTLS_ALERT_PROTOCOL_VERSION);
    A(TURTLS_ALERT_INSUFFICIENT_SECURITY); A(TURTLS_ALERT_INTERNAL_ERROR); A(TURTLS_ALERT_INAPPROPRIATE_FALLBACK); A(TURTLS_ALERT_USER_CANCELLED);
    A(TURTLS_ALERT_MISSING_EXTENSION); A(TURTLS_ALERT_UNSUPPORTED_EXTENSION); A(TURTLS_ALERT_UNRECOGNIZED_NAME);
    A(TURTLS_ALERT_BAD_CERT_STATUS_RESPONSE); A(TURTLS_ALERT_UNKNOWN_PSK_IDENTITY); A(TURTLS_ALERT_CERT_REQUIRED); A(TURTLS_ALERT_NO_APP_PROTOCOL);
    V(TURTLS_ERROR_TLS); V(TURTLS_ERROR_TLS_PEER); V(TURTLS_ERROR_RNG); V(TURTLS_ERROR_WANT_READ); V(TURTLS_ERROR_WANT_WRITE);
    V(TURTLS_ERROR_PRIV_KEY_IS_ZERO); V(TURTLS_ERROR_MISSING_EXTENSIONS);
    V(TURTLS_ECDSA_SECP256R1); V(TURTLS_SECP256R1); V(TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256); V(TurtlsCipherList_TURTLS_AES_128_GCM_SHA256);
    S(TurtlsExts); O(TurtlsExts, server_name); O(TurtlsExts, sig_algs); O(TurtlsExts, sup_groups); O(TurtlsExts, app_protos); O(TurtlsExts, app_protos_len);
    S(TurtlsConfig); O(TurtlsConfig, extensions); O(TurtlsConfig, cipher_suites);
    S(TurtlsIo); O(TurtlsIo, write_fn); O(TurtlsIo, read_fn); O(TurtlsIo, close_fn); O(TurtlsIo, ctx);
    struct TurtlsIo io = {.write_fn = wr, .read_fn = rd, .close_fn = cl, .ctx = NULL};
    struct TurtlsConn *c = turtls_new(io);
    struct TurtlsConfig *g = turtls_get_config(c);
    printf("v default_server_name %d\n", g->extensions.server_name != NULL);
    printf("v default_sig_algs %d\n", g->extensions.sig_algs);
    printf("v default_sup_groups %d\n", g->extensions.sup_groups);
    printf("v default_app_protos %d\n", g->extensions.app_protos != NULL);
    printf("v default_app_protos_len %zu\n", g->extensions.app_protos_len);
    printf("v default_cipher_suites %d\n", g->cipher_suites);
    /* configuration through the published layout, and what comes of it */
    printf("v connect %d\n", turtls_connect(c) < 0); printf("v waits %d\n", turtls_get_error(c) == TURTLS_ERROR_WANT_READ);
    turtls_close(c); printf("v app_proto_length %zu\n", strlen(turtls_app_proto(c)));
    g->cipher_suites = 0; printf("v connect_without_suites %d\n", turtls_connect(c) < 0); printf("v fails %d\n", turtls_get_error(c) == TURTLS_ERROR_TLS);
    g->cipher_suites = TurtlsCipherList_TURTLS_AES_128_GCM_SHA256; g->extensions.sig_algs = 0;
    printf("v connect_without_signatures %d\n", turtls_connect(c) < 0); printf("v misses_extensions %d\n", turtls_get_error(c) == TURTLS_ERROR_MISSING_EXTENSIONS);
    turtls_free(c);
    return 0;
}
