char sim_sut_data_begin[16] __attribute__((aligned(16))) = {1};
char sim_sut_bss_begin[16] __attribute__((aligned(16)));
