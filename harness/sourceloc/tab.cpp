struct Entry;
extern "C" Entry __start_verif_tab[] __attribute__((visibility("hidden")));
extern "C" Entry __stop_verif_tab[] __attribute__((visibility("hidden")));
extern "C" Entry* verif_begin() { return __start_verif_tab; }
extern "C" Entry* verif_end() { return __stop_verif_tab; }
