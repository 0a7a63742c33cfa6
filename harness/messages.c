/* Prints the library's error messages, one per line. */
#include <stdio.h>
#include "resdet.h"
int main(void) {
	for(int e = 1; e <= (int)resdet_get_max_error(); e++) {
		const char* s = resdet_error_str(e);
		puts(s ? s : "");
	}
	return 0;
}
