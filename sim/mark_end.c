char sim_sut_data_end[16] __attribute__((aligned(16))) = {1};
char sim_sut_bss_end[16] __attribute__((aligned(16)));
