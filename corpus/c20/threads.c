#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static long total;
struct cell { struct cell *next; char text[20]; };
static void *work(void *a) {
  long k = (long)a, s = 0; struct cell *h = 0; int i;
  for (i = 0; i < 400; i++) {
    struct cell *c = malloc(sizeof *c); char b[16 + i % 7];
    snprintf(b, sizeof b, "t%ld-%d", k, i); strcpy(c->text, b); c->next = h; h = c;
    if (i % 3 == 0) { char *d = strdup(b); s += strlen(d); free(d); }
    if (i % 5 == 0 && h) { struct cell *n = h->next; free(h); h = n; }
  }
  while (h) { struct cell *n = h->next; s += strlen(h->text); free(h); h = n; }
  pthread_mutex_lock(&m); total += s; pthread_mutex_unlock(&m);
  return (void *)s;
}
int main(void) {
  pthread_t t[6]; long i, all = 0; void *r;
  for (i = 0; i < 6; i++) pthread_create(&t[i], 0, work, (void *)i);
  for (i = 0; i < 6; i++) { pthread_join(t[i], &r); all += (long)r; }
  printf("%ld %d\n", total, all == total);
  return 0;
}
