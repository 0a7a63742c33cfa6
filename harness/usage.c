/* getrusage() with a clock of its own: every call is some time after the one before. */
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
int getrusage(__rusage_who_t who, struct rusage* u) {
	static long long now = 123456789;
	static unsigned n;
	static const int step[] = {700001, 0, 999999, 1, 1000000, 3500123, 450000};
	now += step[n++ % 7];
	if(getenv("USAGE_LOG")) {
		FILE* f = fopen(getenv("USAGE_LOG"),"a");
		if(f) {
			fprintf(f,"%lld %lld\n",now / 1000000,now % 1000000);
			fclose(f);
		}
	}
	*u = (struct rusage){0};
	u->ru_utime.tv_sec = now / 1000000;
	u->ru_utime.tv_usec = now % 1000000;
	return 0;
}
