// mc: variant=asan skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp wrap=socket,connect,fcntl,setsockopt,read,writev,close
// C02, C03, C04: the bytes and the counts of the satellite connections, over
// the histories of c15_connection.cpp (whose other promises are C15's).
#define ACCOUNT_ONLY
#include "c15_connection.cpp"
