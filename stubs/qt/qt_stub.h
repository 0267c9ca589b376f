// Minimal declarations of the Qt value types the drawing code names, so that the
// debugging configuration can be compiled for analysis without Qt.  Never linked or run.
#pragma once
#include <cmath>
typedef double qreal;
namespace Qt {
enum GlobalColor { color0, color1, black, white, darkGray, gray, lightGray, red, green, blue, cyan, magenta, yellow,
                   darkRed, darkGreen, darkBlue, darkCyan, darkMagenta, darkYellow, transparent };
enum PenStyle { NoPen, SolidLine, DashLine, DotLine, DashDotLine, DashDotDotLine };
enum BrushStyle { NoBrush, SolidPattern };
}
class QColor {
  int v = 0;
public:
  QColor() = default;
  QColor(Qt::GlobalColor c) : v(c) {}
  QColor(int r, int g, int b, int a = 255) : v(r + g + b + a) {}
};
class QBrush {
  QColor c;
public:
  QBrush() = default;
  QBrush(const QColor& k) : c(k) {}
  QBrush(Qt::GlobalColor k) : c(k) {}
  QBrush(const QColor& k, Qt::BrushStyle) : c(k) {}
  void setColor(const QColor& k) { c = k; }
};
class QPen {
  QColor c;
  double w = 1;
  int style_ = 1;
public:
  QPen() = default;
  QPen(Qt::PenStyle s) : style_(s) {}
  QPen(const QColor& k) : c(k) {}
  QPen(Qt::GlobalColor k) : c(k) {}
  QPen(const QBrush&, qreal width, Qt::PenStyle = Qt::SolidLine) : w(width) {}
  void setColor(const QColor& k) { c = k; }
  void setWidth(int n) { w = n; }
  void setWidthF(qreal n) { w = n; }
  void setStyle(Qt::PenStyle s) { style_ = s; }
};
class QPointF {
  double xp = 0, yp = 0;
public:
  QPointF() = default;
  QPointF(qreal x, qreal y) : xp(x), yp(y) {}
  qreal x() const { return xp; }
  qreal y() const { return yp; }
  qreal& rx() { return xp; }
  qreal& ry() { return yp; }
  void setX(qreal x) { xp = x; }
  void setY(qreal y) { yp = y; }
  QPointF& operator+=(const QPointF& p) { xp += p.xp; yp += p.yp; return *this; }
  QPointF& operator-=(const QPointF& p) { xp -= p.xp; yp -= p.yp; return *this; }
};
inline QPointF operator+(const QPointF& a, const QPointF& b) { return QPointF(a.x() + b.x(), a.y() + b.y()); }
inline QPointF operator-(const QPointF& a, const QPointF& b) { return QPointF(a.x() - b.x(), a.y() - b.y()); }
inline QPointF operator*(const QPointF& a, qreal b) { return QPointF(a.x() * b, a.y() * b); }
inline QPointF operator/(const QPointF& a, qreal b) { return QPointF(a.x() / b, a.y() / b); }
class QSizeF {
  double w = 0, h = 0;
public:
  QSizeF() = default;
  QSizeF(qreal a, qreal b) : w(a), h(b) {}
  qreal width() const { return w; }
  qreal height() const { return h; }
};
class QLineF {
  QPointF a, b;
public:
  QLineF() = default;
  QLineF(const QPointF& p, const QPointF& q) : a(p), b(q) {}
  QLineF(qreal x1, qreal y1, qreal x2, qreal y2) : a(x1, y1), b(x2, y2) {}
  QPointF p1() const { return a; }
  QPointF p2() const { return b; }
  QPointF center() const { return (a + b) * 0.5; }
  void translate(const QPointF& p) { a += p; b += p; }
  QLineF translated(const QPointF& p) const { return QLineF(a + p, b + p); }
};
class QRectF {
  QPointF a, b;
public:
  QRectF() = default;
  QRectF(const QPointF& p, const QPointF& q) : a(p), b(q) {}
  QRectF(const QPointF& p, const QSizeF& s) : a(p), b(p.x() + s.width(), p.y() + s.height()) {}
  QRectF(qreal x, qreal y, qreal w, qreal h) : a(x, y), b(x + w, y + h) {}
  QRectF translated(const QPointF& p) const { return QRectF(a + p, b + p); }
};
class QPainterPath {
public:
  void moveTo(const QPointF&) {}
  void lineTo(const QPointF&) {}
  void cubicTo(const QPointF&, const QPointF&, const QPointF&) {}
};
class QGraphicsScene;
