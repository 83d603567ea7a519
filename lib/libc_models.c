/* libc functions without a model in the solver's library (encoding only; replays use the real ones). */
#undef memchr
#undef memrchr
#undef strnlen
#undef strstr
#undef strspn
#undef strcspn

size_t strnlen(const char* s, size_t n) {
	size_t i = 0;
	while (i < n && s[i] != '\0') {
		i++;
	}
	return i;
}

void* memchr(const void* p, int c, size_t n) {
	const unsigned char* s = p;
	for (size_t i = 0; i < n; i++) {
		if (s[i] == (unsigned char)c) {
			return (void*)(s + i);
		}
	}
	return NULL;
}

void* memrchr(const void* p, int c, size_t n) {
	const unsigned char* s = p;
	for (size_t i = n; i > 0; i--) {
		if (s[i - 1] == (unsigned char)c) {
			return (void*)(s + i - 1);
		}
	}
	return NULL;
}

char* strstr(const char* text, const char* word) {
	for (size_t at = 0;; at++) {
		size_t i = 0;
		while (word[i] != '\0' && text[at + i] == word[i]) {
			i++;
		}
		if (word[i] == '\0') {
			return (char*)text + at;
		}
		if (text[at] == '\0') {
			return NULL;
		}
	}
}

size_t strspn(const char* s, const char* accept) {
	size_t n = 0;
	for (; s[n] != '\0'; n++) {
		size_t i = 0;
		while (accept[i] != '\0' && accept[i] != s[n]) {
			i++;
		}
		if (accept[i] == '\0') {
			break;
		}
	}
	return n;
}

size_t strcspn(const char* s, const char* reject) {
	size_t n = 0;
	for (; s[n] != '\0'; n++) {
		size_t i = 0;
		while (reject[i] != '\0' && reject[i] != s[n]) {
			i++;
		}
		if (reject[i] != '\0') {
			break;
		}
	}
	return n;
}
