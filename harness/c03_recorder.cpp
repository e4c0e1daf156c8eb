// mc: variant=mct skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp wrap=socket,connect,fcntl,setsockopt,read,writev,close
// C02, C03, C04: the bytes and the counts of the whole streaming recorder,
// over the schedules of c13_recorder.cpp (whose other promises are C13's).
#define ACCOUNT_ONLY
#include "c13_recorder.cpp"
