// C19: reading and writing images through the programs' own image I/O.
//   imio read FILE RAW          -> "size C R S" (GetImageSize) "read C R" ; RAW = doubles
//   imio write FILE RAW C R N [comments...]  -> "status S" ; the array must be left as it was
//   imio many  RAW C R FILE...  -> writes and re-reads each file in one process
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <tuple>
#include "fftw3.h"
#include "image_io.h"

static std::vector<double> load( const char *p )
{
  FILE *f = fopen(p, "rb");
  std::vector<double> v;
  double x;
  while (fread(&x, sizeof x, 1, f) == 1)
    v.push_back(x);
  fclose(f);
  return v;
}

int main( int argc, char **argv )
{
  std::string cmd = argv[1];
  if (cmd == "read") {
    auto sz = GetImageSize(argv[2]);
    printf("size %d %d %d\n", std::get<0>(sz), std::get<1>(sz), std::get<2>(sz));
    int c = -1, r = -1;
    double *v = ReadImageAsVector(argv[2], &c, &r);
    if (! v) {
      printf("read null\n");
      return 1;
    }
    printf("read %d %d\n", c, r);
    FILE *f = fopen(argv[3], "wb");
    fwrite(v, sizeof(double), (size_t)c*r, f);
    fclose(f);
    fftw_free(v);
    return 0;
  }
  if (cmd == "write") {
    std::vector<double> v = load(argv[3]), w = v;
    std::vector<std::string> com;
    for (int i = 6; i < argc; i++)
      com.push_back(argv[i]);
    int s = SaveVectorAsImage(v.data(), argv[2], atoi(argv[4]), atoi(argv[5]), com);
    printf("status %d same %d\n", s, (int)(memcmp(v.data(), w.data(), v.size()*sizeof(double)) == 0));
    return s;
  }
  if (cmd == "many") {
    std::vector<double> v = load(argv[2]);
    int c = atoi(argv[3]), r = atoi(argv[4]);
    for (int i = 5; i < argc; i++) {
      std::vector<std::string> com;
      int s = SaveVectorAsImage(v.data(), argv[i], c, r, com);
      int c2 = 0, r2 = 0;
      double *w = ReadImageAsVector(argv[i], &c2, &r2);
      long bad = 0;
      if (w)
        for (long k = 0; k < (long)c*r; k++)
          bad += !(w[k] == (double)(float)v[k] || (v[k] != v[k] && w[k] != w[k]));
      printf("file %d status %d size %d %d bad %ld\n", i - 5, s, c2, r2, w ? bad : -1);
      if (w)
        fftw_free(w);
    }
    return 0;
  }
  return 2;
}
