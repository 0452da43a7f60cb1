// The windows of gtool1cd, driven without a screen, and the document of its hex viewer.
#include <QtCore>
#include <QtGui>
#include <QtWidgets>
#include "cli.hpp"
#include "v8c.hpp"
#include "guit.hpp"
#include "conf.hpp"
#include "table_data_window.h"
#include "mainwindow.h"
#include "starter.h"
#include "cache.h"
#include "container_form.h"
#include "BlobViewer/blob_viewer.h"
#include "configurations_window.h"
#include "export_table_to_xml_dialog.h"
#include "littlelogwindow.h"
#include "QHexEdit/qhexview.h"
#include "QHexEdit/document/buffer/qmemorybuffer.h"
using namespace cli;
using namespace img;

namespace {

void quiet(QtMsgType, const QMessageLogContext &, const QString &) {}
QString U(const std::string &s) { return QString::fromUtf8(s.data(), (int)s.size()); }

// Answers the dialogs and menus a window opens, in the order given; anything else is closed and counts as unexpected.
struct Robot {
	struct Step { char kind; QString what; int done = 0; }; // f: choose a file or directory, x: cancel a file dialog, m: a message, c: an entry of a context menu
	std::deque<Step> steps;
	std::vector<std::string> unexpected;
	bool tolerant = false; // messages are read and closed
	QObject guard;
	Robot() { next(); }
	// every look is a timer of its own, so that dialogs opened by an answer are answered too
	void next() { QTimer::singleShot(1, &guard, [this] { next(); poke(); }); }
	void poke()
	{
		if (QMenu *m = qobject_cast<QMenu *>(QApplication::activePopupWidget())) {
			if (!steps.empty() && steps.front().kind == 'c') {
				for (QAction *a : m->actions()) if (a->text() == steps.front().what) { steps.pop_front(); m->close(); a->trigger(); return; }
			}
			unexpected.push_back("menu"); m->close(); return;
		}
		QWidget *w = QApplication::activeModalWidget();
		if (!w) return;
		if (QFileDialog *d = qobject_cast<QFileDialog *>(w)) {
			if (!steps.empty() && steps.front().kind == 'f') {
				if (++steps.front().done > 40) { unexpected.push_back("file dialog that does not accept " + Q(steps.front().what)); steps.pop_front(); d->reject(); return; }
				QString p = steps.front().what;
				QFileInfo fi(p);
				d->setDirectory(fi.isDir() ? p : fi.path());
				if (QLineEdit *e = d->findChild<QLineEdit *>("fileNameEdit")) e->setText(p);
				QPointer<QFileDialog> q = d;
				QMetaObject::invokeMethod(d, "accept");
				if (!q || !q->isVisible()) steps.pop_front();
				return;
			}
			if (!steps.empty() && steps.front().kind == 'x') { steps.pop_front(); d->reject(); return; }
			unexpected.push_back("file dialog"); d->reject(); return;
		}
		if (QMessageBox *b = qobject_cast<QMessageBox *>(w)) {
			if (!steps.empty() && steps.front().kind == 'm') steps.pop_front();
			else if (!tolerant) unexpected.push_back("message: " + Q(b->text()));
			b->accept(); return;
		}
	}
	void done(const std::string &where)
	{
		for (int i = 0; i < 400 && !steps.empty(); i++) QCoreApplication::processEvents(QEventLoop::AllEvents, 5);
		if (!steps.empty()) mc::fail("window:dialog", where + ": no dialog where one is expected");
		if (!unexpected.empty()) mc::fail("window:dialog", where + ": unexpected " + unexpected[0]);
	}
};
struct App {
	QApplication *a;
	App(mc::Run &r)
	{
		static int argc = 1; static char a0[] = "gtool1cd"; static char *argv[] = {a0, nullptr};
		setenv("QT_QPA_PLATFORM", "offscreen", 1);
		std::string h = r.tmp + "/home";
		mkdir(h.c_str(), 0700);
		for (const char *v : {"HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR"}) setenv(v, h.c_str(), 1);
		setenv("NO_AT_BRIDGE", "1", 1);
		qInstallMessageHandler(quiet);
		QCoreApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
		a = new QApplication(argc, argv);
		a->setQuitOnLastWindowClosed(false);
	}
	static App &get(mc::Run &r) { static App x(r); return x; }
};
void events() { for (int i = 0; i < 3; i++) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); } }
void close_all()
{
	QList<QPointer<QWidget>> l;
	for (QWidget *w : QApplication::topLevelWidgets()) l.push_back(w);
	for (auto &w : l) if (w) w->hide();
	events();
}
template <class W> W *child(QWidget *w, const char *name)
{
	W *c = w->findChild<W *>(name);
	if (!c) mc::fail("window:parts", std::string("no ") + name);
	return c;
}
template <class W> std::vector<W *> tops()
{
	std::vector<W *> o;
	for (QWidget *w : QApplication::topLevelWidgets()) if (W *x = qobject_cast<W *>(w)) if (x->isVisible()) o.push_back(x);
	return o;
}

// what the viewer of one value shows
struct Look { std::vector<std::string> tabs; std::string text; Bytes hex; QAbstractItemModel *tree = nullptr; };
std::string lf(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else o += s[i]; } return o; }
Look look(QWidget *viewer)
{
	Look l;
	QTabWidget *t = child<QTabWidget>(viewer, "tabWidget");
	for (int i = 0; i < t->count(); i++) l.tabs.push_back(Q(t->tabText(i)));
	std::sort(l.tabs.begin(), l.tabs.end());
	l.text = Q(viewer->findChild<QPlainTextEdit *>("plainTextEdit")->toPlainText());
	QHexDocument *d = child<QHexView>(viewer, "frame")->document();
	QByteArray b = d->read(0, (int)d->length());
	l.hex = Bytes(b.constData(), b.size());
	l.tree = child<QTreeView>(viewer, "treeView")->model();
	return l;
}

// one value and what is to be seen of it
struct Val {
	std::string name;
	Bytes stored;            // as in the base (image) or the text (memo)
	bool blob = false, null = false, has_text = false, has_tree = false, has_cat = false;
	Bytes hex; std::string text; Tn tree; std::vector<Cn> cat; v8c::Layout lay;
};
const std::string BOM = "\xef\xbb\xbf";
Val image_val(const std::string &n, const Bytes &content, int depth)
{
	Val v; v.name = n; v.blob = true; v.hex = v.stored = content;
	for (int i = 0; i < depth; i++) v.stored = v8c::deflate_raw(v.stored);
	return v;
}
Val text_val(const std::string &n, const std::string &s) { Val v; v.name = n; v.stored = s; v.has_text = true; v.text = s; return v; }
Tn sample_tree(int k)
{
	Tn in = list({leaf("\"" + std::string(k * 9, 'q') + "\""), leaf(S(k))});
	return list({list({leaf(S(k)), in, leaf("\"Строка\"")})});
}
std::vector<Val> values(bool thorough)
{
	std::vector<Val> o;
	for (int d = 0; d <= (thorough ? 2 : 1); d++) {
		std::string z = d ? "z" + S(d) : "";
		for (int n : {1, 2, 3, 4, 5, 6, 300, 20000}) o.push_back(image_val("raw" + S(n) + z, pattern(n, 0, n), d));
		for (const char *p : {"Текст", "T", "два\r\nряда\n"}) { Val v = image_val("bom-" + S(strlen(p)) + z, BOM + p, d); v.has_text = true; v.text = p; o.push_back(v); }
		{ std::string l; while (l.size() < 40000) l += "строка " + S(l.size()) + "\r\n"; Val v = image_val("bom-long" + z, BOM + l, d); v.has_text = true; v.text = l; o.push_back(v); }
		{ Val v = image_val("bom-tree" + z, "", d); v.tree = sample_tree(2); write_tree(v.tree.kids[0], v.text); v.hex = v.stored = BOM + v.text; for (int i = 0; i < d; i++) v.stored = v8c::deflate_raw(v.stored); v.has_text = v.has_tree = true; o.push_back(v); }
		{ Val v = image_val("bom-broken" + z, BOM + "{1,", d); v.has_text = true; v.text = "{1,"; o.push_back(v); }
		{ Val v = image_val("mxl" + z, "", d); v.text = "{8,1,\"таблица\"}"; v.tree = list({list({leaf("8"), leaf("1"), leaf("\"таблица\"")})}); v.hex = v.stored = Bytes("MOXCEL\0\x08\0\x01\0\x01\0", 13) + BOM + v.text; for (int i = 0; i < d; i++) v.stored = v8c::deflate_raw(v.stored); v.has_text = v.has_tree = true; o.push_back(v); }
		{ o.push_back(image_val("mox" + z, "MOX", d)); o.push_back(image_val("moxy" + z, "MOXYYY and more of it, but no sheet", d)); }
		for (int k = 1; k <= 3; k++) {
			Val v = image_val("cat" + S(k) + z, "", d);
			for (int i = 0; i < k; i++) { Cn c; c.name = i ? "f" + S(i) : "root"; c.data = BOM + "{" + S(i) + "," + S(k) + "}"; c.packed = i == 1; v.cat.push_back(c); }
			if (k == 3) { Cn in; in.name = "папка"; in.cat = true; in.kids = {v.cat[0], v.cat[1]}; in.kids[0].data = pattern(7, 0, 900); v.cat.push_back(in); }
			v.hex = v.stored = pack(v.cat, v.lay);
			for (int i = 0; i < d; i++) v.stored = v8c::deflate_raw(v.stored);
			v.has_cat = true; o.push_back(v);
		}
	}
	{ Val v; v.name = "null"; v.blob = v.null = true; v.has_text = true; o.push_back(v); }
	for (const char *p : {"Мемо", "x", "первая\r\nвторая", "{", "{1", "a{1}"}) o.push_back(text_val(std::string("memo-") + p, p));
	for (int k = 0; k < 3; k++) { Val v = text_val("memo-tree" + S(k), ""); v.tree = sample_tree(k); write_tree(v.tree.kids[0], v.text); v.stored = v.text; v.has_tree = true; o.push_back(v); }
	{ Val v; v.name = "memo-null"; v.null = true; v.has_text = true; o.push_back(v); }
	return o;
}
bool plain(const Bytes &d) { Bytes o; return !v8c::inflate_raw(d, o); }

void check_look(mc::Run &r, QWidget *viewer, const Val &v, const std::string &where)
{
	Look l = look(viewer);
	r.step();
	std::vector<std::string> want;
	if (v.blob && !v.null) want.push_back("BLOB");
	if (v.has_tree || v.has_cat) want.push_back("Дерево");
	if (v.has_text) want.push_back("Текст");
	std::sort(want.begin(), want.end());
	std::string a, b;
	for (auto &x : l.tabs) a += x + " ";
	for (auto &x : want) b += x + " ";
	mc::expect_eq("viewer:tabs", where + ": pages of the viewer (text " + mc::quote(l.text, 80) + ")", a, b);
	QTabWidget *t = child<QTabWidget>(viewer, "tabWidget");
	if (t->currentIndex() < 0) mc::fail("viewer:tabs", where + ": no page is shown");
	if (v.blob && !v.null) mc::expect_eq("viewer:bytes", where + ": bytes shown", l.hex, v.hex);
	if (v.has_text) mc::expect_eq("viewer:text", where + ": text shown", l.text, lf(v.text));
	if (v.has_tree) {
		if (!l.tree) mc::fail("viewer:tree", where + ": no tree");
		check_sub(r, *l.tree, QModelIndex(), v.tree, "", where);
	}
	if (v.has_cat) {
		if (!l.tree) mc::fail("viewer:tree", where + ": no tree");
		mc::expect_eq("viewer:catalog", where + ": rows at the top", l.tree->rowCount(QModelIndex()), 1);
		check_cat(r, *l.tree, l.tree->index(0, 0, QModelIndex()), v.cat, v.lay, where);
	}
}

Bytes key(uint32_t n, uint32_t len = 8) { Bytes k(len, '\0'); for (uint32_t i = 0; i < 4 && i < len; i++) k[i] = (char)(n >> (24 - 8 * i)); return k; }
IndexDef index_over(const std::vector<int> &order, bool primary, const std::string &name, const std::string &field)
{
	IndexDef x; x.name = name; x.primary = primary; x.keylen = 8; x.fields = {{field, 8}};
	uint32_t k = 0x100;
	for (int o : order) { x.entries.push_back({key(k), (uint32_t)o}); k += 3 + (k % 5) * 300; }
	return x;
}
struct Base {
	std::unique_ptr<T_1CD> b;
	std::string dir;
	Base(mc::Run &r, const Fmt &f, std::vector<Tab> &ts)
	{
		dir = r.fresh_dir();
		make_base(f, ts, dir + "/b.1CD");
		b = open_base(dir + "/b.1CD", false);
		mc::expect(b->is_open(), "base:open", "the base does not open");
	}
	Table *operator[](const std::string &n) { for (int i = 0; i < b->get_numtables(); i++) if (b->get_table(i)->get_name() == n) return b->get_table(i); mc::fail("base:table", "no table " + n); return nullptr; }
};

// a table with one value per row: FILENAME, BINARYDATA (image), MEMO, CODE
struct Vt {
	Tab t;
	std::vector<Val> vals;
	Vt(const std::vector<Val> &vs, const std::string &name = "_REFERENCE9") : vals(vs)
	{
		t.def.name = name;
		t.def.fields = {F("FILENAME", "NVC", 12), F("BINARYDATA", "I", 0, 0, true), F("_MEMO", "NT", 0, 0, true), F("_CODE", "N", 5)};
		Blob bl;
		for (size_t i = 0; i < vs.size(); i++) {
			const Val &v = vs[i];
			V a = null_(), m = null_();
			if (!v.null && v.blob) { a.null = false; a.raw = blobref(bl.add(v.stored), v.stored.size()); a.kind = BASE64; }
			if (!v.null && !v.blob) m = memo(bl, v.stored);
			t.rows.push_back({cli::nvc("name" + S(i), 12), a, m, cli::num(S(i), 5, 0)});
		}
		t.def.blob = bl.d;
	}
	// the value of a cell
	Val cell(int rec, int col) const
	{
		const Val &v = vals[rec];
		if (col == 0) return text_val("", "name" + S(rec));
		if (col == 3) return text_val("", S(rec));
		if ((col == 1) == v.blob) return v;
		Val n; n.null = true; n.blob = col == 1; n.has_text = true; return n;
	}
};
struct Win {
	std::unique_ptr<TableDataWindow> w;
	Win(Table *t) : w(new TableDataWindow(nullptr, t)) { w->resize(900, 700); w->show(); events(); }
	QTableView *view() { return child<QTableView>(w.get(), "dataView"); }
	QComboBox *box() { return child<QComboBox>(w.get(), "indexChooseBox"); }
	QWidget *panel() { return child<QWidget>(w.get(), "dataWidget"); }
	void choose(int i) { box()->setCurrentIndex(i); emit box()->activated(i); events(); }
	void select(int row, int col)
	{
		QModelIndex ix = view()->model()->index(row, col);
		view()->selectionModel()->setCurrentIndex(ix, QItemSelectionModel::ClearAndSelect);
		events();
	}
};
std::string shown(QTableView *v, int row, int col) { return Q(v->model()->data(v->model()->index(row, col), Qt::DisplayRole).toString()); }
void check_rows(QTableView *v, const std::vector<int> &order, const std::string &where)
{
	mc::expect_eq("window:rows", where + ": rows", v->model()->rowCount(), order.size());
	for (size_t i = 0; i < order.size(); i++) mc::expect_eq("window:order", where + ": row " + S(i), shown(v, (int)i, 0), "name" + S(order[i]));
}

// ---------------------------------------------------------------- G05: the window of a table
void g05(mc::Run &r)
{
	auto &fm = formats();
	std::vector<Val> all = values(r.thorough);
	all.erase(std::remove_if(all.begin(), all.end(), [](const Val &v) { return !v.null && !plain(v.blob ? v.hex : utf16(v.stored)); }), all.end());
	// every value, alone
	for (size_t i = 0; i < all.size(); i++) for (int fi = 0; fi < 3; fi++) r.scenario("g05/value/" + all[i].name + "/" + fm[fi].name, [&] {
		App::get(r);
		Vt vt({all[i]});
		std::vector<Tab> ts = {vt.t};
		Base o(r, fm[fi], ts);
		Win w(o["_REFERENCE9"]);
		for (int pass = 0; pass < 2; pass++) for (int c : {1, 2, 0, 3}) { w.select(0, c); check_look(r, w.panel(), vt.cell(0, c), "column " + S(c)); }
		// the contents of a container, opened by a double click
		const Val &v = all[i];
		if (!v.has_cat) return;
		w.select(0, 1);
		for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < v.cat.size(); k++) {
			if (v.cat[k].cat) continue;
			QTreeView *tv = child<QTreeView>(w.panel(), "treeView");
			QModelIndex top = tv->model()->index(0, 0, QModelIndex());
			emit tv->doubleClicked(tv->model()->index((int)k, 0, top));
			events();
			Val e = image_val("", v.cat[k].data, 0);
			if (!e.hex.compare(0, 3, BOM)) { e.has_text = true; e.text = e.hex.substr(3); e.has_tree = true; e.tree = list({list({leaf(S(k)), leaf(S(v.cat.size() > 3 ? 3 : v.cat.size()))})}); }
			bool found = false;
			for (BlobViewer *bv : tops<BlobViewer>()) if (bv->isWindow() && Q(bv->windowTitle()) == "name0 / " + v.cat[k].name) { found = true; check_look(r, bv, e, "element " + v.cat[k].name); }
			if (!found) mc::fail("viewer:element", "no window for the element " + v.cat[k].name);
		}
		close_all();
	});
	// every history of looking at values and choosing indexes
	std::vector<Val> few;
	for (auto n : {"raw5", "bom-tree", "cat2", "null", "memo-tree1", "memo-x", "catz1"}) for (auto &v : all) if (v.name == n) few.push_back(v);
	for (auto &v : all) if (v.name == "cat1z1") few.push_back(v);
	int nv = (int)few.size(), alpha = nv + 3, depth = r.thorough ? 4 : 3;
	long total = 1;
	for (int i = 0; i < depth; i++) total *= alpha;
	for (long s = 0; s < total; s++) {
		std::vector<int> act;
		for (long x = s, i = 0; i < depth; i++, x /= alpha) act.push_back((int)(x % alpha));
		std::string id = "g05/history/";
		for (int a : act) id += a < nv ? std::string(1, 'a' + a) : S(a - nv);
		r.scenario(id, [&] {
			App::get(r);
			Vt vt(few);
			std::vector<int> fwd, rev, odd;
			for (int i = 0; i < nv; i++) fwd.push_back(i);
			rev.assign(fwd.rbegin(), fwd.rend());
			for (int i = 0; i < nv; i++) odd.push_back((i * 2 + 1) % nv >= 0 ? (i + 3) % nv : 0);
			bool pk_second = s & 1;
			vt.t.def.indexes = {index_over(rev, !pk_second, "BYNAME", "FILENAME"), index_over(odd, pk_second, "BYCODE", "_CODE")};
			std::vector<Tab> ts = {vt.t};
			Base o(r, fm[s % 3], ts);
			Win w(o["_REFERENCE9"]);
			mc::expect_eq("window:title", "title", Q(w.w->windowTitle()), "_REFERENCE9");
			mc::expect_eq("window:choice", "entries of the choice of index", w.box()->count(), 3);
			std::map<std::string, std::vector<int>> by = {{"BYNAME: FILENAME", rev}, {"BYCODE: _CODE", odd}, {"<без индекса>", fwd}};
			for (int i = 0; i < 3; i++) if (!by.count(Q(w.box()->itemText(i)))) mc::fail("window:choice", "entry " + Q(w.box()->itemText(i)));
			mc::expect_eq("window:choice", "first entry", Q(w.box()->itemText(0)), "<без индекса>");
			auto order = [&] { return by[Q(w.box()->currentText())]; };
			check_rows(w.view(), order(), "at first");
			std::string where = "after";
			for (int a : act) {
				if (a >= nv) { w.choose(a - nv); where += " index " + S(a - nv); check_rows(w.view(), order(), where); r.step(); continue; }
				auto ord = order();
				int row = (int)(std::find(ord.begin(), ord.end(), a) - ord.begin());
				int col = few[a].blob ? 1 : 2;
				w.select(row, col);
				where += " " + few[a].name;
				check_look(r, w.panel(), vt.cell(a, col), where);
				check_rows(w.view(), ord, where);
			}
		});
	}
	// saving a value, and the other windows of a table
	for (size_t i = 0; i < all.size(); i++) r.scenario("g05/save/" + all[i].name, [&] {
		App::get(r);
		Vt vt({all[i], all[(i + 1) % all.size()]});
		vt.t.def.indexes = {index_over({1, 0}, true, "PK", "FILENAME")};
		std::vector<Tab> ts = {vt.t};
		Base o(r, fm[i % 3], ts);
		Win w(o["_REFERENCE9"]);
		Robot rb;
		for (int ix : {1, 0}) for (int rec = 0; rec < 2; rec++) {
			const Val &v = vt.vals[rec];
			if (v.null || !v.blob) continue;
			w.choose(ix);
			w.select(ix ? 1 - rec : rec, 1);
			std::string p = o.dir + "/saved-" + S(ix) + S(rec);
			rb.steps = {{'f', U(p)}};
			child<QPushButton>(w.w.get(), "saveBlobButton")->click();
			rb.done("saving");
			bool there;
			Bytes sv = mc::read_file(p, &there);
			if (!there) mc::fail("window:saved", "nothing saved");
			Bytes once;
			mc::expect_eq("window:saved", "saved value", sv, v8c::inflate_raw(v.stored, once) ? once : v.stored);
			std::string q = o.dir + "/cancelled";
			rb.steps = {{'x', ""}};
			child<QPushButton>(w.w.get(), "saveBlobButton")->click();
			rb.done("cancelled saving");
			r.step();
		}
	});
}

#include "tabs.hpp"

// ---------------------------------------------------------------- G06: one session of the program
std::vector<std::string> cached() { std::vector<std::string> o; for (auto &x : Cache().getCachedList()) o.push_back(Q(x)); return o; }
std::vector<std::string> table_names(MainWindow *m)
{
	QTableView *v = child<QTableView>(m, "tableListView");
	std::vector<std::string> o;
	if (v->model()) for (int i = 0; i < v->model()->rowCount(); i++) o.push_back(Q(v->model()->data(v->model()->index(i, 0), Qt::DisplayRole).toString()));
	return o;
}
std::string join(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x + "\n"; return o; }

// the files of an export in XML, by name
std::map<std::string, Bytes> xml_files(const std::string &dir) { std::map<std::string, Bytes> m; mc::list_tree(dir, m); return m; }

Table *lib(T_1CD &b, const std::string &n) { for (int i = 0; i < b.get_numtables(); i++) if (b.get_table(i)->get_name() == n) return b.get_table(i); mc::fail("base:table", "no table " + n); return nullptr; }
struct Session {
	mc::Run &r;
	std::string dir;
	Robot rb;
	std::vector<Tab> mine, other;
	Bytes base;
	std::vector<Val> firsts;
	MainWindow *mw = nullptr;
	std::map<std::string, bool> imported;
	Objs from;
	int serial = 0;
	Bytes vendor, cfg[2];
	std::string where = "after";
	const Fmt &f;
	static std::vector<Tab> tables(int tag, const std::vector<conf::Row> &c, const std::vector<conf::Row> &s)
	{
		std::vector<Tab> ts = {conf::file_tab("CONFIG", c, true), conf::file_tab("CONFIGSAVE", s, true), conf::file_tab("PARAMS", {}, true), conf::file_tab("FILES", {}, true), conf::file_tab("DBSCHEMA", {}, true)};
		ts[4].def.fields = {conf::field("SERIALIZEDDATA", "I")};
		ts.push_back(tab("_FIRST", 6, true, true, 20, 1));
		ts.push_back(tab("_MOVED", tag == 1 ? 9 : 4, true, true, 20, tag + 5));
		return ts;
	}
	static conf::Vendor who() { return {"11111111-2222-3333-4444-555555555555.66666666-7777-8888-9999-aaaaaaaaaaaa", "Trade", "Firm", "1.0", 106, 37, 2, 1, false, false}; }
	Session(mc::Run &r, const Fmt &f) : r(r), f(f)
	{
		dir = r.fresh_dir();
		vendor = conf::vendor_cf(who(), 3);
		conf::Row v; v.name = who().row; v.data = v8c::deflate_raw(v8c::deflate_raw(vendor));
		std::vector<conf::Row> rows[2];
		for (int i = 0; i < 2; i++) for (const char *n : {"root", "version", "versions", "aaaa0000-0000-0000-0000-000000000001"}) { conf::Row x; x.name = n; x.data = v8c::deflate_raw(std::string("\xef\xbb\xbf{1,") + n + S(i) + "}"); rows[i].push_back(x); }
		rows[0].push_back(v);
		mine = tables(0, rows[0], rows[1]); other = tables(1, {}, {});
		base = make_base(f, mine, dir + "/b.1CD");
		Bytes o = make_base(f, other, dir + "/other.1CD");
		set_versions(o, other, 77);
		mc::write_file(dir + "/other.1CD", o);
		from = objs(o, other.back().def);
		mkdir((dir + "/in").c_str(), 0700);
		auto b = open_base(dir + "/other.1CD", false);
		lib(*b, "_MOVED")->export_table(dir + "/in");
		b.reset();
		open_main();
	}
	void open_main()
	{
		StarterWindow *st = new StarterWindow;
		st->setCache(new Cache());
		st->show();
		events();
		rb.steps = {{'f', U(dir + "/b.1CD")}};
		child<QPushButton>(st, "openNewButton")->click();
		rb.done("opening");
		events();
		auto ms = tops<MainWindow>();
		if (ms.size() != 1) mc::fail("session:window", "no window for the opened base");
		mw = ms[0];
	}
	int row(const std::string &n) { auto v = table_names(mw); int i = (int)(std::find(v.begin(), v.end(), n) - v.begin()); if (i == (int)v.size()) mc::fail("session:tables", where + ": no table " + n); return i; }
	const Tab &now(const std::string &n) { const std::vector<Tab> &ts = imported[n] ? other : mine; for (auto &t : ts) if (t.def.name == n) return t; abort(); }
	TableDataWindow *table(const std::string &n)
	{
		QTableView *v = child<QTableView>(mw, "tableListView");
		emit v->doubleClicked(v->model()->index(row(n), 0));
		events();
		TableDataWindow *found = nullptr;
		for (auto *w : tops<TableDataWindow>()) if (Q(w->windowTitle()) == n) { if (found) mc::fail("session:table-window", where + ": two windows for " + n); found = w; }
		if (!found) mc::fail("session:table-window", where + ": no window for " + n);
		return found;
	}
	void look_at(const std::string &n)
	{
		TableDataWindow *w = table(n);
		QTableView *v = child<QTableView>(w, "dataView");
		const Tab &t = now(n);
		if (v->model()->rowCount() != (int)t.rows.size()) mc::fail("session:rows", where + ": " + n + " shows " + S(v->model()->rowCount()) + " rows, the table has " + S(t.rows.size()));
		for (size_t i = 0; i < t.rows.size(); i++) {
			mc::expect_eq("session:cell", where + ": " + n + ", row " + S(i) + ", _ID", canon(Q(v->model()->data(v->model()->index((int)i, 0), Qt::DisplayRole).toString())), canon(t.rows[i][0].want));
			v->selectionModel()->setCurrentIndex(v->model()->index((int)i, 2), QItemSelectionModel::ClearAndSelect);
			events();
			Look l = look(child<QWidget>(w, "dataWidget"));
			mc::expect_eq("session:value", where + ": " + n + ", row " + S(i) + ", bytes shown", l.hex, t.rows[i][2].want);
			r.step();
		}
	}
	void select(const std::vector<std::string> &names)
	{
		QTableView *v = child<QTableView>(mw, "tableListView");
		v->selectionModel()->clear();
		for (auto &n : names) v->selectionModel()->select(v->model()->index(row(n), 0), QItemSelectionModel::Select);
	}
	void menu(const char *what, const std::string &d, const std::vector<std::string> &names)
	{
		select(names);
		rb.steps = {{'c', U(what)}, {'f', U(d)}};
		emit child<QTableView>(mw, "tableListView")->customContextMenuRequested(QPoint(5, 5));
		rb.done(where);
		events();
	}
	Bytes disk() { return mc::read_file(dir + "/b.1CD"); }
	std::string fresh() { std::string d = dir + "/o" + S(++serial); mkdir(d.c_str(), 0700); return d; }
	void check_base()
	{
		Bytes g = disk();
		for (auto &t : mine) {
			Objs want = objs(base, t.def);
			if (imported[t.def.name]) want = from;
			check_objs(g, t.def, want, where.c_str(), true);
		}
		consistent(g, mine);
		if (imported.empty()) mc::expect_eq("session:base", where + ": the base on disk", g, base);
	}
	void xml(const std::string &n, bool blob, bool unpack, bool cancel)
	{
		TableDataWindow *w = table(n);
		std::string d = fresh(), e = fresh();
		rb.steps = {cancel ? Robot::Step{'x', ""} : Robot::Step{'f', U(d + "/t.xml")}};
		child<QPushButton>(w, "exportToXmlButton")->click();
		rb.done(where);
		events();
		if (cancel) return;
		ExportTableToXmlDialog *dl = nullptr;
		for (auto *x : tops<ExportTableToXmlDialog>()) dl = x;
		if (!dl) mc::fail("session:xml-dialog", where + ": no window to export from");
		child<QCheckBox>(dl, "exportBlobCheckBox")->setChecked(blob);
		child<QCheckBox>(dl, "unpackBlobCheckBox")->setChecked(unpack);
		rb.steps = {{'m', ""}};
		child<QDialogButtonBox>(dl, "buttonBox")->button(QDialogButtonBox::Ok)->click();
		rb.done(where);
		dl->hide();
		events();
		mc::write_file(e + "/copy.1CD", disk());
		auto b = open_base(e + "/copy.1CD", false);
		mkdir((e + "/x").c_str(), 0700);
		lib(*b, n)->fill_records_index();
		lib(*b, n)->export_to_xml(e + "/x/t.xml", blob, unpack);
		auto got = xml_files(d), want = xml_files(e + "/x");
		for (auto &x : want) if (!got.count(x.first)) mc::fail("session:xml-files", where + ": no file " + x.first);
		for (auto &x : got) { if (!want.count(x.first)) mc::fail("session:xml-files", where + ": file " + x.first + " is too many"); mc::expect_eq("session:xml", where + ": " + x.first, x.second, want[x.first]); }
		if (!blob) check_doc(d + "/t.xml", now(n), now(n).live());
		r.step();
	}
	void config(int what) // 0: of the database, 1: the main one, 2: of the supplier
	{
		child<QPushButton>(mw, "configurationsButton")->click();
		events();
		auto cs = tops<ConfigurationsWindow>();
		if (cs.size() != 1) mc::fail("session:configurations", where + ": " + S(cs.size()) + " windows of configurations");
		std::string d = fresh(), e = fresh();
		rb.steps = {{'f', U(d + "/s.cf")}};
		if (what == 2) {
			QTableView *v = child<QTableView>(cs[0], "vendorsTable");
			mc::expect_eq("session:vendors", where + ": configurations of suppliers", v->model()->rowCount(), 1);
			v->selectionModel()->setCurrentIndex(v->model()->index(0, 1), QItemSelectionModel::ClearAndSelect);
			child<QPushButton>(cs[0], "saveVendorConfigButton")->click();
			rb.done(where);
			mc::expect_eq("session:saved", where + ": configuration of the supplier", mc::read_file(d + "/s.cf"), vendor);
			r.step();
			return;
		}
		child<QPushButton>(cs[0], what ? "saveConfigButton" : "saveDbConfigButton")->click();
		rb.done(where);
		mc::write_file(e + "/copy.1CD", disk());
		auto b = open_base(e + "/copy.1CD", false);
		bool ok = what ? b->save_configsave(e + "/s.cf") : b->save_config(e + "/s.cf");
		mc::expect(ok, "session:saved", where + ": the configuration cannot be saved");
		check_same_files(d + "/s.cf", e + "/s.cf");
		r.step();
	}
	void check_same_files(const std::string &a, const std::string &b)
	{
		bool there;
		Bytes x = mc::read_file(a, &there), y = mc::read_file(b);
		if (!there) mc::fail("session:saved", where + ": nothing saved");
		auto p = v8c::parse(x).files, q = v8c::parse(y).files;
		mc::expect_eq("session:saved", where + ": files of the saved configuration", p.size(), q.size());
		for (size_t i = 0; i < p.size(); i++) { mc::expect_eq("session:saved", where + ": name of file " + S(i), p[i].name, q[i].name); mc::expect_eq("session:saved", where + ": file " + p[i].name, p[i].data, q[i].data); }
	}
	static int actions() { return 11; }
	void act(int a)
	{
		static const char *N[] = {"look _FIRST", "look _MOVED", "export _FIRST,_MOVED", "export _MOVED", "import _MOVED", "xml _MOVED", "xml _FIRST with files", "xml cancelled", "save configuration", "save main configuration", "save supplier's configuration"};
		where += std::string(" / ") + N[a];
		switch (a) {
		case 0: look_at("_FIRST"); break;
		case 1: look_at("_MOVED"); break;
		case 2: case 3: {
			std::string d = fresh();
			std::vector<std::string> n = {"_MOVED"};
			if (a == 2) n.insert(n.begin(), "_FIRST");
			menu("Экспорт BLOB", d, n);
			Bytes g = disk();
			for (auto &x : n) for (auto &t : mine) if (t.def.name == x) check_export(d + "/" + x, objs(g, t.def));
			std::map<std::string, Bytes> fs; mc::list_tree(d, fs);
			for (auto &x : fs) if (std::find(n.begin(), n.end(), x.first.substr(0, x.first.find('/'))) == n.end()) mc::fail("session:export", where + ": " + x.first + " of a table that is not selected");
			break;
		}
		case 4: menu("Импорт BLOB", dir + "/in", {"_MOVED"}); imported["_MOVED"] = true; break;
		case 5: xml("_MOVED", false, true, false); break;
		case 6: xml("_FIRST", true, false, false); break;
		case 7: xml("_MOVED", false, false, true); break;
		case 8: config(0); break;
		case 9: config(1); break;
		case 10: config(2); break;
		}
		check_base();
	}
};
void g06(mc::Run &r)
{
	// opening: every history of choosing files and entries of the list, of bases, a container and files that are neither
	struct File { const char *name; int kind; }; // 0 base, 1 container, 2 neither
	static const std::vector<File> FS = {{"a.1CD", 0}, {"б.1cd", 0}, {"c.epf", 1}, {"empty.1CD", 2}, {"text.1CD", 2}, {"half.1CD", 2}};
	int nf = (int)FS.size(), alpha = nf + 3, depth = r.thorough ? 4 : 3; // the entries 0, 1 and 2 of the list
	long total = 1;
	for (int i = 0; i < depth; i++) total *= alpha;
	for (long s = 0; s < total; s++) {
		std::vector<int> act;
		for (long x = s, i = 0; i < depth; i++, x /= alpha) act.push_back((int)(x % alpha));
		std::string id = "g06/open/";
		for (int a : act) id += a < nf ? std::string(1, 'a' + a) : S(a - nf);
		r.scenario(id, [&] {
			App::get(r);
			close_all();
			unlink(Q(QStandardPaths::writableLocation(QStandardPaths::CacheLocation) + "/.gtool1cd.list").c_str());
			std::string d = r.fresh_dir();
			const Fmt &f = formats()[s % formats().size()];
			std::vector<Tab> ta = {tab("_ONE", 2, false, false)}, tb = {tab("_TWO", 2, true, true), tab("_THREE", 3, true, false)};
			make_base(f, ta, d + "/a.1CD"); make_base(f, tb, d + "/б.1cd");
			Cn c; c.name = "text"; c.data = BOM + "{1}";
			v8c::Layout lay;
			std::vector<Cn> cat = {c};
			mc::write_file(d + "/c.epf", pack(cat, lay));
			mc::write_file(d + "/empty.1CD", "");
			mc::write_file(d + "/text.1CD", "This is not a base. " + std::string(300, 'x'));
			mc::write_file(d + "/half.1CD", mc::read_file(d + "/a.1CD").substr(0, f.ps + 100));
			Robot rb;
			std::vector<std::string> list;
			std::string where = "after";
			size_t mains = 0, conts = 0;
			StarterWindow *st = nullptr;
			for (int a : act) {
				std::vector<std::string> shown_list;
				if (!st || !st->isVisible()) {
					if (mains && conts % 2 == 0) { QAction *o = tops<MainWindow>()[0]->findChild<QAction *>("openDatabaseFileAction"); o->trigger(); }
					else { StarterWindow *n = new StarterWindow; n->setCache(new Cache()); n->show(); }
					events();
					auto v = tops<StarterWindow>();
					mc::expect_eq("open:starter", where + ": windows to open from", v.size(), (size_t)1);
					st = v[0];
					QAbstractItemModel *m = child<QListView>(st, "listView")->model();
					for (int i = 0; i < m->rowCount(); i++) shown_list.push_back(Q(m->index(i, 0).data().toString()));
					mc::expect_eq("open:list", where + ": list of opened bases", join(shown_list), join(list));
				}
				QAbstractItemModel *m = child<QListView>(st, "listView")->model();
				std::string path;
				int k;
				size_t logs = tops<LittleLogWindow>().size();
				if (a < nf) {
					k = a; path = d + "/" + FS[a].name;
					where += std::string(" / choose ") + FS[a].name;
					rb.steps = {{'f', U(path)}};
					child<QPushButton>(st, "openNewButton")->click();
					rb.done(where);
				} else {
					int e = a - nf;
					if (e >= m->rowCount()) break;
					path = Q(m->index(e, 0).data().toString());
					for (k = 0; path != d + "/" + FS[k].name; k++) if (k + 1 == nf) mc::fail("open:list", where + ": entry " + path);
					where += " / entry " + S(e) + " (" + FS[k].name + ")";
					emit child<QListView>(st, "listView")->doubleClicked(m->index(e, 0));
				}
				events();
				r.step();
				if (FS[k].kind == 0) mains++; else if (FS[k].kind == 1) conts++;
				auto ms = tops<MainWindow>();
				auto cs = tops<ContainerForm>();
				mc::expect_eq("open:windows", where + ": windows of bases", ms.size(), mains);
				mc::expect_eq("open:windows", where + ": windows of containers", cs.size(), conts);
				if (FS[k].kind < 2) {
					if (a < nf) list.push_back(path);
					if (st->isVisible()) mc::fail("open:starter", where + ": the window to open from stays");
					bool found = false;
					if (FS[k].kind == 0) for (auto *w : ms) if (Q(w->windowTitle()) == path) { found = true; std::vector<std::string> n = table_names(w), want; for (auto &t : k == 0 ? ta : tb) want.push_back(t.def.name); mc::expect_eq("open:tables", where + ": tables", join(n), join(want)); }
					if (FS[k].kind == 1) for (auto *w : cs) if (Q(w->windowTitle()) == path) {
						found = true;
						QTreeView *tv = child<QTreeView>(child<QWidget>(w, "widget"), "treeView");
						if (!tv->model()) mc::fail("open:container", where + ": no tree");
						mc::expect_eq("open:container", where + ": name of the tree", Q(tv->model()->data(tv->model()->index(0, 0, QModelIndex()), Qt::DisplayRole).toString()), "c");
						check_cat(r, *tv->model(), tv->model()->index(0, 0, QModelIndex()), cat, lay, where);
					}
					if (!found) mc::fail("open:windows", where + ": no window titled " + path);
				} else {
					if (!st->isVisible()) mc::fail("open:starter", where + ": the window to open from is closed although nothing is opened");
					auto ls = tops<LittleLogWindow>();
					mc::expect_eq("open:log", where + ": windows with messages", ls.size(), logs + 1);
					bool all = true;
					for (auto *w : ls) all &= child<QListWidget>(w, "logList")->count() > 0;
					if (!all) mc::fail("open:log", where + ": no message why it is not opened");
				}
				mc::expect_eq("open:list", where + ": saved list", join(cached()), join(list));
			}
		});
	}
	// imports and exports that fail: the program goes on, and the base stays
	for (int fi = 0; fi < (int)wformats().size(); fi++) for (int kind = 0; kind < 7; kind++) for (int before = 0; before < 3; before++) r.scenario("g06/fail/" + std::string(wformats()[fi].name) + "/" + S(kind) + "/" + S(before), [&] {
		App::get(r);
		close_all();
		Session se(r, wformats()[fi]);
		if (before) se.act(before - 1);
		std::string in = se.dir + "/in/_MOVED/";
		se.where += " / failing " + S(kind);
		se.rb.tolerant = true;
		if (kind == 0) unlink((in + "root").c_str());
		if (kind == 1) mc::write_file(in + "root", mc::read_file(in + "root").substr(0, 20));
		if (kind == 2) unlink((in + "data").c_str());
		if (kind == 3) unlink((in + "blob").c_str());
		if (kind == 4) unlink((in + "index").c_str());
		if (kind <= 4) se.menu("Импорт BLOB", se.dir + "/in", {"_MOVED"});
		std::string d = se.fresh();
		if (kind == 5) { mc::write_file(d + "/_MOVED", "in the way"); se.menu("Экспорт BLOB", d, {"_FIRST", "_MOVED"}); }
		if (kind == 6) se.menu("Импорт BLOB", d, {"_MOVED"}); // nothing was exported there
		se.check_base();
		se.rb.tolerant = false;
		for (int a = 0; a < 6; a++) if (a != 4 || kind > 4) se.act(a);
	});
	// working with an opened base: every history of looks, exports, imports and savings
	int n = Session::actions(), len = r.thorough ? 4 : 3;
	total = 1;
	for (int i = 0; i < len; i++) total *= n;
	for (long s = 0; s < total; s++) {
		std::vector<int> act;
		for (long x = s, i = 0; i < len; i++, x /= n) act.push_back((int)(x % n));
		std::string id = "g06/work/";
		for (int a : act) id += (char)('a' + a);
		r.scenario(id, [&] {
			App::get(r);
			close_all();
			Session se(r, wformats()[s % wformats().size()]);
			for (int a : act) se.act(a);
		});
	}
}

#include "hexv.hpp"

}

void explore(mc::Run &r)
{
	if (r.prop == "G05") g05(r);
	else if (r.prop == "G06") g06(r);
	else if (r.prop == "G07") hexv::run(r);
}
