// Positive and negative controls of the race detector, compiled like the code under test.
extern "C" void vf_control(int which, double* a, const double* b, int n)
{
    switch (which) {
    case 0: // independent
#pragma omp parallel for
        for (int i = 0; i < n; ++i) a[i] = b[i] + b[i + 1];
        break;
    case 1: // a neighbour's element is read
#pragma omp parallel for
        for (int i = 0; i < n; ++i) a[i] = a[i + 1] + b[i];
        break;
    case 2: // two iterations write one element (the same value)
#pragma omp parallel for
        for (int i = 0; i < n; ++i) a[i / 2] = 1;
        break;
    case 3: // private scratch on stack and heap
#pragma omp parallel for
        for (int i = 0; i < n; ++i) {
            double* p = new double[2];
            double q[2];
            double* volatile v = q;
            p[0] = b[i], v[1] = p[0];
            a[i] = p[0] + v[1];
            delete[] p;
        }
        break;
    case 4: { // a shared accumulator
        double s = 0;
#pragma omp parallel for shared(s)
        for (int i = 0; i < n; ++i) s += b[i];
        a[0] = s;
        break;
    }
    }
}
