/* Stands in for keyd: reports its arguments to the check. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

int main(int argc, char *argv[])
{
	static char buf[180000];
	size_t n = 0;
	const char *path = getenv("VERIF_REC"), *rc = getenv("VERIF_RC"), *ms = getenv("VERIF_MS");
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	int fd = socket(AF_UNIX, SOCK_DGRAM, 0);

	if (!path || strlen(path) >= sizeof a.sun_path)
		return 99;
	strcpy(a.sun_path, path);
	for (int i = 1; i < argc; i++) {
		size_t l = strlen(argv[i]) + 1;
		if (n + l > sizeof buf)
			return 98;
		memcpy(buf + n, argv[i], l);
		n += l;
	}
	if (ms && atoi(ms))
		usleep(atoi(ms) * 1000);
	if (sendto(fd, buf, n, 0, (struct sockaddr *)&a, sizeof a) < 0)
		return 97;
	if (rc && atoi(rc)) {
		fprintf(stderr, "ERROR: no\n");
		return atoi(rc);
	}
	puts("Success");
	return 0;
}
