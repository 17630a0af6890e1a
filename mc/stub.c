/* A recording stand-in for an implementation under interop test.
   usage: stub NAME MODE JSON. Appends NAME and JSON to calls.log and prints
   {"output": "NAME-<offset>"}. MODE "failtest" makes every test command fail,
   "failgen" every generate command, "failcreate" every create command;
   "badgen" makes generate commands print something that is not JSON. */
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    int fd = open("calls.log", O_WRONLY | O_APPEND | O_CREAT, 0600);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) return 4;
    for (int i = 1; i < argc; i++) {
        size_t n = strlen(argv[i]) + 1;
        if (write(fd, argv[i], n) != (ssize_t)n) return 5;
    }
    if (write(fd, "\n", 2) != 2) return 5;
    close(fd);
    if (strstr(argv[argc - 1], "\"create\"")) { printf("created\n"); return !strcmp(argv[2], "failcreate"); }
    int test = strstr(argv[argc - 1], "\"testOptions\"") != 0;
    if (test ? !strcmp(argv[2], "failtest") : !strcmp(argv[2], "failgen")) { printf("refused\n"); return 1; }
    if (!test && !strcmp(argv[2], "badgen")) { printf("no output\n"); return 0; }
    printf("{\"output\": \"%s-%ld\"}", argv[1], (long)st.st_size);
    return 0;
}
