/*
 * The consistency every published topology must have, whatever the platform:
 * for arrays of up to N elements, starts and counts describe exactly the
 * elements that point back.
 */
#ifndef HIERARCHY_H
#define HIERARCHY_H

#define RANGE_IS(members, total, belongs, start, count, what) \
	do { \
		uint32_t n_ = 0; \
		for (uint32_t m = 0; m < N; m++) { \
			if (m < (total)) { \
				const bool in_ = m >= (start) && m - (start) < (count); \
				vf_assert(in_ == (belongs), what); \
				n_ += in_; \
			} \
		} \
		vf_assert(n_ == (count) && n_ != 0, what); \
	} while (0)

static bool in_cores(const struct cpuinfo_core* p) {
	bool ok = false;
	for (uint32_t j = 0; j < N; j++) {
		ok |= j < cpuinfo_cores_count && p == &cpuinfo_cores[j];
	}
	return ok;
}

static bool in_clusters(const struct cpuinfo_cluster* p) {
	bool ok = false;
	for (uint32_t j = 0; j < N; j++) {
		ok |= j < cpuinfo_clusters_count && p == &cpuinfo_clusters[j];
	}
	return ok;
}

static bool in_packages(const struct cpuinfo_package* p) {
	bool ok = false;
	for (uint32_t j = 0; j < N; j++) {
		ok |= j < cpuinfo_packages_count && p == &cpuinfo_packages[j];
	}
	return ok;
}

static void check_hierarchy(void) {
	vf_assert(cpuinfo_processors_count >= 1 && cpuinfo_processors_count <= N, "processors count");
	vf_assert(cpuinfo_cores_count >= 1 && cpuinfo_cores_count <= cpuinfo_processors_count, "cores count");
	vf_assert(cpuinfo_clusters_count >= 1 && cpuinfo_clusters_count <= cpuinfo_cores_count, "clusters count");
	vf_assert(cpuinfo_packages_count >= 1 && cpuinfo_packages_count <= cpuinfo_clusters_count, "packages count");
	for (uint32_t i = 0; i < N; i++) {
		if (i < cpuinfo_processors_count) {
			const struct cpuinfo_processor* p = &cpuinfo_processors[i];
			vf_assert(
				in_cores(p->core) && in_clusters(p->cluster) && in_packages(p->package),
				"a processor points into the published arrays");
			/* by index: following a symbolic pointer is costly */
			for (uint32_t j = 0; j < N; j++) {
				if (j < cpuinfo_cores_count && p->core == &cpuinfo_cores[j]) {
					vf_assert(cpuinfo_cores[j].cluster == p->cluster, "a processor's cluster is its core's cluster");
					vf_assert(cpuinfo_cores[j].package == p->package, "a processor's package is its core's package");
#ifndef NO_SMT_ID
					vf_assert(p->smt_id == i - cpuinfo_cores[j].processor_start, "SMT number within the core");
#endif
				}
				if (j < cpuinfo_clusters_count && p->cluster == &cpuinfo_clusters[j]) {
					vf_assert(cpuinfo_clusters[j].package == p->package, "a processor's package is its cluster's package");
				}
			}
		}
	}
	for (uint32_t j = 0; j < N; j++) {
		if (j < cpuinfo_cores_count) {
			const struct cpuinfo_core* c = &cpuinfo_cores[j];
			vf_assert(in_clusters(c->cluster) && in_packages(c->package), "a core points into the published arrays");
			RANGE_IS(
				cpuinfo_processors, cpuinfo_processors_count, cpuinfo_processors[m].core == c, c->processor_start,
				c->processor_count, "a core's range is exactly its processors");
		}
		if (j < cpuinfo_clusters_count) {
			const struct cpuinfo_cluster* c = &cpuinfo_clusters[j];
			vf_assert(in_packages(c->package), "a cluster points into the published arrays");
			RANGE_IS(
				cpuinfo_processors, cpuinfo_processors_count, cpuinfo_processors[m].cluster == c, c->processor_start,
				c->processor_count, "a cluster's range is exactly its processors");
			RANGE_IS(
				cpuinfo_cores, cpuinfo_cores_count, cpuinfo_cores[m].cluster == c, c->core_start, c->core_count,
				"a cluster's range is exactly its cores");
		}
		if (j < cpuinfo_packages_count) {
			const struct cpuinfo_package* c = &cpuinfo_packages[j];
			RANGE_IS(
				cpuinfo_processors, cpuinfo_processors_count, cpuinfo_processors[m].package == c, c->processor_start,
				c->processor_count, "a package's range is exactly its processors");
			RANGE_IS(
				cpuinfo_cores, cpuinfo_cores_count, cpuinfo_cores[m].package == c, c->core_start, c->core_count,
				"a package's range is exactly its cores");
			RANGE_IS(
				cpuinfo_clusters, cpuinfo_clusters_count, cpuinfo_clusters[m].package == c, c->cluster_start, c->cluster_count,
				"a package's range is exactly its clusters");
		}
	}
}

/* caches of one level: CACHE_OF names the member of struct cpuinfo_processor's cache */
#define CHECK_CACHE_LEVEL(level, member) \
	do { \
		vf_assert(cpuinfo_cache_count[level] <= N, "cache count"); \
		for (uint32_t j = 0; j < N; j++) { \
			if (j < cpuinfo_cache_count[level]) { \
				const struct cpuinfo_cache* c = &cpuinfo_cache[level][j]; \
				RANGE_IS( \
					cpuinfo_processors, cpuinfo_processors_count, cpuinfo_processors[m].cache.member == c, \
					c->processor_start, c->processor_count, "a cache's range is exactly the processors that share it"); \
			} \
		} \
		for (uint32_t i = 0; i < N; i++) { \
			if (i < cpuinfo_processors_count) { \
				bool in_ = cpuinfo_processors[i].cache.member == NULL; \
				for (uint32_t j = 0; j < N; j++) { \
					in_ |= j < cpuinfo_cache_count[level] && cpuinfo_processors[i].cache.member == &cpuinfo_cache[level][j]; \
				} \
				vf_assert(in_, "a processor's cache is an element of the published array"); \
			} \
		} \
	} while (0)

#endif
