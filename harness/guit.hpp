// What gtool1cd shows of bracket texts and containers, and helpers for the windows.
#pragma once
#include <QtCore>
#include "cli.hpp"
#include "v8c.hpp"

namespace {

using namespace cli;
using namespace img;

std::string S(long long x) { return std::to_string(x); }
std::string Q(const QString &s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), b.size()); }
FieldDef F(const std::string &n, const std::string &t, int len = 0, int prec = 0, bool null = false)
{
	FieldDef f; f.name = n; f.type = t; f.len = len; f.prec = prec; f.null = null; return f;
}

struct Tn { std::string v, shown, full; Bytes bin; bool is_bin = false, list = false; std::vector<Tn> kids; };

std::string trim(const std::string &v)
{
	std::string s = v;
	size_t k = s.find('\n');
	if (k != s.npos) { s = s.substr(0, k); if (!s.empty() && s.back() == '\r') s.pop_back(); }
	size_t n = 0, cut = 0;
	for (size_t i = 0; i < s.size(); i++) if (((unsigned char)s[i] & 0xc0) != 0x80) { if (n == 37) cut = i; n++; }
	return n > 40 ? s.substr(0, cut) + "..." : s;
}
void write_tree(const Tn &n, std::string &o)
{
	if (!n.list) { o += n.v; return; }
	o += "{";
	for (size_t i = 0; i < n.kids.size(); i++) { if (i) o += ",\r\n"; write_tree(n.kids[i], o); }
	o += "}";
}
int count(const Tn &n) { int c = 1; for (auto &k : n.kids) c += count(k); return c; }

void check_sub(mc::Run &r, QAbstractItemModel &m, const QModelIndex &parent, const Tn &n, const std::string &path, const std::string &what)
{
	mc::expect_eq("tree:rows", what + " at " + path + ": number of rows", m.rowCount(parent), n.kids.size());
	mc::expect_eq("tree:columns", what + ": columns", m.columnCount(parent), 2);
	if (m.index((int)n.kids.size(), 0, parent).isValid()) mc::fail("tree:range", what + " at " + path + ": a row past the end");
	for (size_t i = 0; i < n.kids.size(); i++) {
		const Tn &k = n.kids[i];
		std::string p = path + ":" + S(i), where = what + " at " + p;
		r.step();
		QModelIndex a = m.index((int)i, 0, parent), b = m.index((int)i, 1, parent);
		if (!a.isValid() || !b.isValid()) mc::fail("tree:index", where + ": no such row");
		if (m.parent(a) != parent || m.parent(b) != parent) mc::fail("tree:parent", where + ": the parent of the row is another one");
		mc::expect_eq("tree:path", where + ": path", Q(m.data(a, Qt::DisplayRole).toString()), p);
		std::string want = k.list ? "{Элементов: " + S(k.kids.size()) + "}" : trim(k.shown);
		mc::expect_eq("tree:shown", where + ": value shown", Q(m.data(b, Qt::DisplayRole).toString()), want);
		QVariant e = m.data(b, Qt::EditRole);
		if (k.is_bin) {
			std::unique_ptr<QIODevice> d(e.value<QIODevice *>());
			if (!d) mc::fail("tree:binary", where + ": binary data is not opened");
			d->open(QIODevice::ReadOnly);
			QByteArray x = d->readAll();
			mc::expect_eq("tree:binary", where + ": binary data", std::string(x.constData(), x.size()), k.bin);
		} else mc::expect_eq("tree:full", where + ": full value", Q(e.toString()), k.list ? want : k.shown);
		mc::expect_eq("tree:rows", where + ": rows under the second column", m.rowCount(b), 0);
		check_sub(r, m, a, k, p, what);
	}
}

Tn list(const std::vector<Tn> &k) { Tn n; n.list = true; n.kids = k; return n; }
Tn leaf(const std::string &v) { Tn n; n.v = n.shown = n.full = v; return n; }
Tn bleaf(const std::string &pre, const Bytes &d)
{
	Tn n; n.is_bin = true; n.bin = d;
	n.v = n.shown = pre + Q(QString::fromLatin1(QByteArray(d.data(), d.size()).toBase64()));
	return n;
}
// all ordered forests with k nodes (leaf = empty kids)
void forests(int k, std::vector<std::vector<Tn>> &out)
{
	if (k == 0) { out.push_back({}); return; }
	for (int a = 1; a <= k; a++) { // size of the first tree
		std::vector<std::vector<Tn>> sub, rest;
		forests(a - 1, sub); forests(k - a, rest);
		for (auto &s : sub) for (auto &q : rest) for (int kind = 0; kind < (s.empty() ? 2 : 1); kind++) {
			std::vector<Tn> f;
			f.push_back(s.empty() && kind == 0 ? leaf("7") : list(s));
			f.insert(f.end(), q.begin(), q.end());
			out.push_back(f);
		}
	}
}

struct Cn { std::string name; Bytes data; bool cat = false, packed = false; std::vector<Cn> kids; };
Bytes pack(const std::vector<Cn> &k, v8c::Layout l)
{
	std::vector<v8c::File> fs;
	for (auto &c : k) {
		Bytes d = c.cat ? pack(c.kids, l) : c.data;
		if (c.packed) d = v8c::deflate_raw(d);
		fs.push_back({c.name, d});
	}
	return v8c::build(fs, l);
}
void check_cat(mc::Run &r, QAbstractItemModel &m, const QModelIndex &parent, const std::vector<Cn> &k, v8c::Layout l, const std::string &what)
{
	mc::expect_eq("catalog:rows", what + ": number of rows", m.rowCount(parent), k.size());
	if (m.index((int)k.size(), 0, parent).isValid()) mc::fail("catalog:range", what + ": a row past the end");
	for (size_t i = 0; i < k.size(); i++) {
		QModelIndex a = m.index((int)i, 0, parent);
		std::string where = what + "/" + k[i].name;
		r.step();
		if (!a.isValid()) mc::fail("catalog:index", where + ": no such row");
		if (m.parent(a) != parent) mc::fail("catalog:parent", where + ": the parent of the row is another one");
		mc::expect_eq("catalog:name", where + ": name", Q(m.data(a, Qt::DisplayRole).toString()), k[i].name);
		if (!k[i].cat || k[i].packed) {
			std::unique_ptr<QIODevice> d(m.data(a, Qt::EditRole).value<QIODevice *>());
			if (!d) mc::fail("catalog:open", where + ": contents are not opened");
			d->open(QIODevice::ReadOnly);
			QByteArray x = d->readAll();
			mc::expect_eq("catalog:contents", where + ": contents", std::string(x.constData(), x.size()), k[i].cat ? pack(k[i].kids, l) : k[i].data);
		}
		if (k[i].cat && !k[i].packed) check_cat(r, m, a, k[i].kids, l, where);
		else mc::expect_eq("catalog:rows", where + ": rows of a file", m.rowCount(a), 0);
	}
}

}
