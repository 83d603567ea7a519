/* snprintf for %s %.*s %.Ns %c %u %zu %d %x %%: the libc's has no model in the solver. */
#ifndef MINI_FORMAT_H
#define MINI_FORMAT_H

struct mf {
	char* s;
	size_t n, used;
};

static void mf_put(struct mf* o, char c) {
	if (o->used + 1 < o->n) {
		o->s[o->used] = c;
	}
	o->used++;
}

static void mf_number(struct mf* o, uint64_t v, uint32_t base) {
	char t[20];
	uint32_t k = 0;
	do {
		const uint32_t d = (uint32_t)(v % base);
		t[k++] = (char)(d < 10 ? '0' + d : 'a' + (d - 10));
		v /= base;
	} while (v != 0);
	while (k != 0) {
		mf_put(o, t[--k]);
	}
}

int vf_vsnprintf(char* s, size_t n, const char* f, va_list args) {
	struct mf o = {s, n, 0};
	while (*f != '\0') {
		if (*f != '%') {
			mf_put(&o, *f++);
			continue;
		}
		f++;
		size_t precision = SIZE_MAX;
		if (*f == '.') {
			f++;
			if (*f == '*') {
				f++;
				precision = (size_t)va_arg(args, int);
			} else {
				precision = 0;
				while (*f >= '0' && *f <= '9') {
					precision = precision * 10 + (size_t)(*f++ - '0');
				}
			}
		}
		bool wide = false;
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') {
			wide = sizeof(long) == 8;
			f++;
		}
		switch (*f) {
			case 's': {
				const char* t = va_arg(args, const char*);
				for (size_t i = 0; i < precision && t[i] != '\0'; i++) {
					mf_put(&o, t[i]);
				}
				break;
			}
			case 'c':
				mf_put(&o, (char)va_arg(args, int));
				break;
			case 'd':
			case 'i': {
				const int v = va_arg(args, int);
				if (v < 0) {
					mf_put(&o, '-');
				}
				mf_number(&o, v < 0 ? 0 - (uint64_t)(int64_t)v : (uint64_t)v, 10);
				break;
			}
			case 'u':
				mf_number(&o, wide ? va_arg(args, unsigned long) : va_arg(args, unsigned int), 10);
				break;
			case 'x':
			case 'X':
				mf_number(&o, wide ? va_arg(args, unsigned long) : va_arg(args, unsigned int), 16);
				break;
			case '%':
				mf_put(&o, '%');
				break;
			default:
				vf_assert(0, "format outside the model");
		}
		f++;
	}
	if (n != 0) {
		s[o.used < n ? o.used : n - 1] = '\0';
	}
	return (int)o.used;
}

int vf_snprintf(char* s, size_t n, const char* f, ...) {
	va_list args;
	va_start(args, f);
	const int r = vf_vsnprintf(s, n, f, args);
	va_end(args);
	return r;
}

#endif
