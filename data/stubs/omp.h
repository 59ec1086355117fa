/* stands in for the OpenMP header: only declarations used by the kernels are needed to parse them */
