/* A value that the operation works with inside, to be looked for as well. */
void er_secret(const unsigned char *p, size_t n);
