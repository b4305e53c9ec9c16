#pragma once
// Analysis-only stand-in for vendor/delabella.
template<class T> struct IDelaBella2 {
  struct Vertex; 
  struct Simplex { Vertex * v[3]; Simplex * f[3]; Simplex * next; int index; unsigned char flags; bool IsDelaunay() const; };
  struct Vertex { Vertex * next; Simplex * sew; T x, y; int i; };
  static IDelaBella2<T> * Create();
  void Destroy();
  int Triangulate(int points, T const * x, T const * y = 0, unsigned long advance_bytes = 0, int stop = -1);
  Simplex const * GetFirstDelaunaySimplex() const;
  Simplex const * GetFirstDelaunayTriangle() const;
  Vertex const * GetFirstBoundaryVertex() const;
  int GetNumPolygons() const; int GetNumInputPoints() const;
  Simplex const * Polygonize(Simplex const ** = 0);
};
