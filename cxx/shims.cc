// C entry points to the C++ interface, for the analysis of P23: written against the public interface only.
#include <new>
#include <cstdio>
#include <string>
#include <vector>
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/vg_options.hpp"
#include "virg/nexus/vg_color.hpp"
#include "virg/nexus/vg_color_map.hpp"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_fundamental_matrix.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_graphics_context.hpp"
#include "virg/nexus/vg_image_annotator.hpp"
#include "virg/nexus/vg_harris_detector.hpp"
using namespace virg::nexus;
using std::string;
extern "C" {
VGImage *s_img_new() { return new VGImage(); }
VGImage *s_img_adopt(struct NXImage *i, int own) { return new VGImage(i, own != 0); }
VGImage *s_img_share(VGImage *a) { return new VGImage(*a); }
void s_img_assign(VGImage *a, VGImage *b) { *a = *b; }
void s_img_del(VGImage *a) { delete a; }
VGImage *s_img_clone(VGImage *a) { return new VGImage(a->clone()); }
struct NXImage *s_img_nx(VGImage *a) { return a->nx_img(); }
int s_img_width(VGImage *a) { return a->width(); }
int s_img_height(VGImage *a) { return a->height(); }
int s_img_stride(VGImage *a) { return a->row_stride(); }
int s_img_channels(VGImage *a) { return a->n_channels(); }
int s_img_is_gray(VGImage *a) { return a->type() == VGImage::GRAYSCALE; }
int s_img_is_rgba(VGImage *a) { return a->type() == VGImage::RGBA; }
int s_img_is_uchar(VGImage *a) { return a->data_type() == VGImage::UCHAR; }
int s_img_is_float(VGImage *a) { return a->data_type() == VGImage::FLOAT32; }
const void *s_img_data_uc(const VGImage *a) { return a->data<uchar>(); }
const void *s_img_data_f(const VGImage *a) { return a->data<float>(); }
void *s_img_row_uc(VGImage *a, int y) { return a->data<uchar>(y); }
const void *s_img_crow_uc(const VGImage *a, int y) { return a->data<uchar>(y); }
void *s_img_row_f(VGImage *a, int y) { return a->data<float>(y); }
const void *s_img_crow_f(const VGImage *a, int y) { return a->data<float>(y); }
VGImage *s_img_create(VGImage *a, int w, int h, int s, int rgba, int f) { return &a->create(w, h, s, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, f ? VGImage::FLOAT32 : VGImage::UCHAR); }
VGImage *s_img_create_gray(VGImage *a, int w, int h, int f) { return &a->create_gray(w, h, f ? VGImage::FLOAT32 : VGImage::UCHAR); }
VGImage *s_img_create_rgba(VGImage *a, int w, int h, int f) { return &a->create_rgba(w, h, f ? VGImage::FLOAT32 : VGImage::UCHAR); }
VGImage *s_img_create_like(VGImage *a, VGImage *b) { return &a->create_like(*b); }
VGImage *s_img_copy_of(VGImage *a, VGImage *b) { return &a->copy_of(*b); }
VGImage *s_img_swap(VGImage *a, VGImage *b) { return &a->swap_with(*b); }
VGImage *s_img_convert(VGImage *a, int rgba) { return &a->convert_type_to(rgba ? VGImage::RGBA : VGImage::GRAYSCALE); }
VGImage *s_img_release(VGImage *a) { return &a->release(); }
VGImage *s_img_wrap_uc(VGImage *a, uchar *d, int w, int h, int s, int rgba, int own) { return &a->wrap<uchar>(d, w, h, s, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, VGImage::UCHAR, own != 0); }
VGImage *s_img_wrap_f(VGImage *a, float *d, int w, int h, int s, int rgba, int own) { return &a->wrap<float>(d, w, h, s, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, VGImage::FLOAT32, own != 0); }
VGImage *s_img_rewrap(VGImage *a, struct NXImage *i, int own) { return &a->wrap(i, own != 0); }
VGImage *s_img_zero(VGImage *a) { return &a->set_zero(); }
VGImage *s_img_norm(VGImage *a, int sym) { return &a->normalize_to_zero_one(sym != 0); }
VGImage *s_img_axpy(VGImage *a, float x, float y) { return &a->axpy(x, y); }
VGImage *s_img_map(VGImage *a, VGImage *c, VGImage *g, int m) { static const VGColorMap::Type t[] = { VGColorMap::GRAY, VGColorMap::VIRIDIS, VGColorMap::PLASMA, VGColorMap::MAGMA, VGColorMap::CUBEHELIX }; return &a->apply_colormap(*c, *g, t[m]); }
VGImage *s_img_scaled(VGImage *a, VGImage *b, float s) { return &a->scaled_of(*b, s); }
VGImage *s_img_down(VGImage *a, VGImage *b) { return &a->downsampled_from(*b); }
VGImage *s_img_box(VGImage *a, VGImage *b, int x, int y) { return &a->filter_box(*b, x, y); }
VGImage *s_img_box_x(VGImage *a, VGImage *b, int r) { return &a->filter_box_x(*b, r); }
VGImage *s_img_box_y(VGImage *a, VGImage *b, int r) { return &a->filter_box_y(*b, r); }
VGImage *s_img_smooth(VGImage *a, VGImage *b, float x, float y, float k) { return &a->smooth(*b, x, y, k); }
VGImage *s_img_dx(VGImage *a, VGImage *b) { return &a->deriv_x_of(*b); }
VGImage *s_img_dy(VGImage *a, VGImage *b) { return &a->deriv_y_of(*b); }
void s_img_xsave(VGImage *a, const string *f) { a->xsave(*f); }
int s_img_save(VGImage *a, const string *f) { return a->save(*f); }
void s_img_xload(VGImage *a, const string *f, int m) { a->xload(*f, m == 0 ? VGImage::LOAD_AS_IS : m == 1 ? VGImage::LOAD_GRAYSCALE : VGImage::LOAD_RGBA); }
int s_img_load(VGImage *a, const string *f, int m) { return a->load(*f, m == 0 ? VGImage::LOAD_AS_IS : m == 1 ? VGImage::LOAD_GRAYSCALE : VGImage::LOAD_RGBA); }

string *s_str_new(const char *t) { return new string(t); }
void s_str_del(string *s) { delete s; }
const char *s_str_text(const string *s) { return s->c_str(); }

// descriptor map
VGDescriptorMap *s_map_new(int n) { return new VGDescriptorMap(n); }
void s_map_del(VGDescriptorMap *m) { delete m; }
VGDescriptorMap *s_map_copy(VGDescriptorMap *m) { return new VGDescriptorMap(*m); }
void s_map_clear(VGDescriptorMap *m) { m->clear(); }
void s_map_reserve(VGDescriptorMap *m, int n) { m->reserve(n); }
int s_map_size(VGDescriptorMap *m) { return m->size(); }
int s_map_octets(VGDescriptorMap *m) { return m->n_octets(); }
void s_map_set_octets(VGDescriptorMap *m, int n) { m->set_n_octets(n); }
uint64_t s_map_id(VGDescriptorMap *m, int i) { return m->get_id(i); }
const uchar *s_map_desc(VGDescriptorMap *m, int i) { return m->get_descriptor(i); }
int s_map_add(VGDescriptorMap *m, uint64_t id, const uchar *d) { return m->add(id, d); }
void s_map_nn(VGDescriptorMap *m, const uchar *d, uint64_t *id, float *c) { VGDescriptorMap::SearchResult r = m->search_nn(d); *id = r.id; *c = r.match_cost; }
const uchar *s_map_by_id(VGDescriptorMap *m, uint64_t id) { return m->search_by_id(id); }

// correspondences
typedef VGPointCorrespondence2D Corr;
Corr *s_corr_new() { return new Corr(); }
void s_corr_del(Corr *c) { delete c; }
Corr *s_corr_clone(Corr *c) { return new Corr(c->clone()); }
void s_corr_clear(Corr *c) { c->clear(); }
void s_corr_reserve(Corr *c, int n) { c->reserve(n); }
int s_corr_add(Corr *c, uint64_t id, float x, float y, float s, uint64_t idp, float xp, float yp, float sp, float cost, int in) { return c->add_match(id, x, y, s, idp, xp, yp, sp, cost, in != 0); }
int s_corr_add_keys(Corr *c, const struct NXKeypoint *k, const struct NXKeypoint *kp, float s0, float cost, int in) { return c->add_keypoint_match(k, kp, s0, cost, in != 0); }
int s_corr_size(Corr *c) { return c->size(); }
struct NXPointMatch2D *s_corr_at(Corr *c, int i) { return &(*c)[i]; }
const struct NXPointMatch2D *s_corr_cat(const Corr *c, int i) { return &(*c)[i]; }
struct NXPointMatch2D *s_corr_matches(Corr *c) { return c->matches(); }
int s_corr_is_inlier(Corr *c, int i) { return c->is_inlier(i); }
void s_corr_set_inlier(Corr *c, int i, int v) { c->set_inlier(i, v != 0); }
void s_corr_sort(Corr *c) { c->sort_by_match_cost(); }
const void *s_corr_stats(Corr *c) { return c->stats(); }
void s_corr_normalize(Corr *c) { c->normalize(); }
void s_corr_denormalize(Corr *c) { c->denormalize(); }
void s_corr_denorm_h(Corr *c, double *h) { c->denormalize_homography(h); }
void s_corr_denorm_f(Corr *c, double *f) { c->denormalize_fundamental(f); }

// homography and fundamental matrix
VGHomography *s_h_new() { return new VGHomography(); }
void s_h_del(VGHomography *h) { delete h; }
void s_h_set(VGHomography *h, const double *d) { h->set(d); }
double *s_h_data(VGHomography *h) { return h->data(); }
void s_h_fwd_d(VGHomography *h, double *xp, const double *x) { h->transfer_fwd<double>(xp, x); }
void s_h_fwd_f(VGHomography *h, float *xp, const float *x) { h->transfer_fwd<float>(xp, x); }
int s_h_ransac(VGHomography *h, Corr *c, double tol, int n) { return h->estimate_ransac(*c, tol, n); }
int s_h_inliers(VGHomography *h, Corr *c, double tol) { return h->estimate_from_inliers(*c, tol); }
double s_h_err_fwd(VGHomography *h, Corr *c) { return h->transfer_error_fwd(*c); }
double s_h_err_bwd(VGHomography *h, Corr *c) { return h->transfer_error_bwd(*c); }
double s_h_err_sym(VGHomography *h, Corr *c) { return h->transfer_error_sym(*c); }
VGFundamentalMatrix *s_f_new() { return new VGFundamentalMatrix(); }
void s_f_del(VGFundamentalMatrix *f) { delete f; }
void s_f_set(VGFundamentalMatrix *f, const double *d) { f->set(d); }
double *s_f_data(VGFundamentalMatrix *f) { return f->data(); }
void s_f_line(VGFundamentalMatrix *f, double *l, const double *x) { f->epipolar_line_fwd(l, x); }
double s_f_dist(VGFundamentalMatrix *f, const struct NXPointMatch2D *m) { return f->epipolar_distance_fwd(m); }
int s_f_ransac(VGFundamentalMatrix *f, Corr *c, double tol, int n) { return f->estimate_ransac(*c, tol, n); }
int s_f_inliers(VGFundamentalMatrix *f, Corr *c, double tol) { return f->estimate_from_inliers(*c, tol); }

// options
VGOptions *s_opt_new() { return new VGOptions(); }
void s_opt_del(VGOptions *o) { delete o; }
static VGOptions::RequirementState rq(int r) { return r ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED; }
void s_opt_add_bool(VGOptions *o, const string *s, const string *h, int r, int v) { o->add_bool(*s, *h, rq(r), v != 0); }
void s_opt_add_int(VGOptions *o, const string *s, const string *h, int r, int v) { o->add_int(*s, *h, rq(r), v); }
void s_opt_add_double(VGOptions *o, const string *s, const string *h, int r, double v) { o->add_double(*s, *h, rq(r), v); }
void s_opt_add_string(VGOptions *o, const string *s, const string *h, int r, const string *v) { o->add_string(*s, *h, rq(r), *v); }
void s_opt_add_rest(VGOptions *o, const string *h, int r) { o->add_rest(*h, rq(r)); }
void s_opt_add_help(VGOptions *o) { o->add_help(); }
void s_opt_args(VGOptions *o, int n, char **v) { o->set_from_args(n, v); }
int s_opt_get_bool(VGOptions *o, const string *n) { return o->get_bool(*n); }
int s_opt_get_int(VGOptions *o, const string *n) { return o->get_int(*n); }
double s_opt_get_double(VGOptions *o, const string *n) { return o->get_double(*n); }
string *s_opt_get_string(VGOptions *o, const string *n) { return new string(o->get_string(*n)); }
int s_opt_is_set(VGOptions *o, const string *n) { return o->is_set(*n); }
std::vector<string> *s_opt_rest(VGOptions *o) { return new std::vector<string>(o->get_rest()); }
int s_vec_size(std::vector<string> *v) { return (int)v->size(); }
const char *s_vec_at(std::vector<string> *v, int i) { return (*v)[i].c_str(); }
void s_vec_del(std::vector<string> *v) { delete v; }
void s_opt_header(VGOptions *o, const string *h) { o->set_usage_header(*h); }
void s_opt_footer(VGOptions *o, const string *h) { o->set_usage_footer(*h); }
void s_opt_values(VGOptions *o, FILE *f) { o->print_values(f); }
void s_opt_usage(VGOptions *o, FILE *f) { o->print_usage(f); }

// pyramid
VGImagePyr *s_pyr_new() { return new VGImagePyr(); }
void s_pyr_del(VGImagePyr *p) { delete p; }
VGImagePyr *s_pyr_fast(VGImage *i, int n, float s) { return new VGImagePyr(VGImagePyr::build_fast_from(*i, n, s)); }
VGImagePyr *s_pyr_fine(VGImage *i, int o, int n, float s) { return new VGImagePyr(VGImagePyr::build_fine_from(*i, o, n, s)); }
VGImagePyr *s_pyr_scaled(VGImage *i, int n, float f, float s) { return new VGImagePyr(VGImagePyr::build_scaled_from(*i, n, f, s)); }
void s_pyr_rebuild(VGImagePyr *p) { p->rebuild(); }
void s_pyr_rebuild_from(VGImagePyr *p, VGImage *i) { p->rebuild_from(*i); }
int s_pyr_is_fast(VGImagePyr *p) { return p->type() == VGImagePyr::FAST; }
int s_pyr_is_fine(VGImagePyr *p) { return p->type() == VGImagePyr::FINE; }
int s_pyr_is_scaled(VGImagePyr *p) { return p->type() == VGImagePyr::SCALED; }
int s_pyr_levels(VGImagePyr *p) { return p->n_levels(); }
int s_pyr_octaves(VGImagePyr *p) { return p->n_octaves(); }
int s_pyr_steps(VGImagePyr *p) { return p->n_octave_steps(); }
float s_pyr_factor(VGImagePyr *p) { return p->scale_factor(); }
float s_pyr_sigma0(VGImagePyr *p) { return p->sigma0(); }
float s_pyr_level_sigma(VGImagePyr *p, int i) { return p->level_sigma(i); }
float s_pyr_level_scale(VGImagePyr *p, int i) { return p->level_scale(i); }
VGImage *s_pyr_at(VGImagePyr *p, int i) { return new VGImage((*p)[i]); }
const struct NXImagePyr *s_pyr_nx(VGImagePyr *p) { return p->nx_pyr(); }

// graphics context
typedef VGGraphicsContext Gc;
Gc *s_gc_image(VGImage *i) { return new Gc(Gc::new_from_image(*i)); }
Gc *s_gc_pdf(const string *f, double w, double h) { return new Gc(Gc::new_pdf(*f, w, h)); }
Gc *s_gc_svg(const string *f, double w, double h) { return new Gc(Gc::new_svg(*f, w, h)); }
void s_gc_del(Gc *g) { delete g; }
double s_gc_a4_width() { return Gc::A4_WIDTH_IN_PTS; }
double s_gc_a4_height() { return Gc::A4_HEIGHT_IN_PTS; }
void s_gc_clear(Gc *g) { g->clear(); }
void s_gc_new_path(Gc *g) { g->new_path(); }
void s_gc_stroke(Gc *g) { g->stroke(); }
void s_gc_fill(Gc *g) { g->fill(); }
void s_gc_flush(Gc *g) { g->flush(); }
void s_gc_set_color(Gc *g, double a, double b, double c, double d) { g->set_color(a, b, c, d); }
void s_gc_set_vgcolor(Gc *g, double a, double b, double c, double d) { g->set_color(VGColor(a, b, c, d)); }
void s_gc_set_line_width(Gc *g, double a) { g->set_line_width(a); }
void s_gc_set_line_dash(Gc *g, int n, double *d, double o) { g->set_line_dash(n, d, o); }
void s_gc_move_to(Gc *g, double a, double b) { g->move_to(a, b); }
void s_gc_line_to(Gc *g, double a, double b) { g->line_to(a, b); }
void s_gc_rel_move_to(Gc *g, double a, double b) { g->rel_move_to(a, b); }
void s_gc_rel_line_to(Gc *g, double a, double b) { g->rel_line_to(a, b); }
void s_gc_line(Gc *g, double a, double b, double c, double d) { g->line(a, b, c, d); }
void s_gc_rectangle(Gc *g, double a, double b, double c, double d) { g->rectangle(a, b, c, d); }
void s_gc_arc(Gc *g, double a, double b, double c, double d, double e) { g->arc(a, b, c, d, e); }
void s_gc_circle(Gc *g, double a, double b, double c) { g->circle(a, b, c); }
void s_gc_curve_to(Gc *g, double a, double b, double c, double d, double e, double f) { g->curve_to(a, b, c, d, e, f); }
void s_gc_rel_curve_to(Gc *g, double a, double b, double c, double d, double e, double f) { g->rel_curve_to(a, b, c, d, e, f); }
void s_gc_curve(Gc *g, double a, double b, double c, double d, double e, double f, double h, double i) { g->curve(a, b, c, d, e, f, h, i); }
void s_gc_text(Gc *g, double x, double y, const string *t, double z) { g->draw_text(x, y, *t, z); }
void s_gc_text_size(Gc *g, const string *t, double z, double *w, double *h) { g->set_text_size(*t, z, w, h); }

// colours
void s_color_named(int k, double *o)
{
        VGColor c = k == 0 ? VGColor::red() : k == 1 ? VGColor::green() : k == 2 ? VGColor::blue() : k == 3 ? VGColor::black() : k == 4 ? VGColor::white() : k == 5 ? VGColor::yellow() : k == 6 ? VGColor::purple() : VGColor::cyan();
        o[0] = c.r(); o[1] = c.g(); o[2] = c.b(); o[3] = c.a();
        for (int i = 0; i < 4; ++i) o[4 + i] = c.v()[i];
}
void s_color_random(double *o) { VGColor c = VGColor::random(); o[0] = c.r(); o[1] = c.g(); o[2] = c.b(); o[3] = c.a(); }
void s_color_map(int m, float v, double *o)
{
        VGColor c = VGColorMap::apply(m == 0 ? VGColorMap::GRAY : m == 1 ? VGColorMap::VIRIDIS : m == 2 ? VGColorMap::PLASMA : m == 3 ? VGColorMap::MAGMA : VGColorMap::CUBEHELIX, v);
        o[0] = c.r(); o[1] = c.g(); o[2] = c.b(); o[3] = c.a();
}

// BRIEF
VGBriefExtractor *s_be_new(int n, int r) { return new VGBriefExtractor(n, r); }
void s_be_del(VGBriefExtractor *b) { delete b; }
VGBriefExtractor *s_be_resize(VGBriefExtractor *b, int n, int r) { return &b->resize(n, r); }
VGBriefExtractor *s_be_seed(VGBriefExtractor *b, uint32_t s) { return &b->randomize_with_seed(s); }
VGBriefExtractor *s_be_random(VGBriefExtractor *b) { return &b->randomize(); }
int s_be_check(VGBriefExtractor *b, VGImagePyr *p, int x, int y, int l) { return b->check_point_pyr(*p, x, y, l); }
int s_be_check_key(VGBriefExtractor *b, VGImagePyr *p, const struct NXKeypoint *k) { return b->check_keypoint_pyr(*p, *k); }
void s_be_compute(VGBriefExtractor *b, VGImagePyr *p, int x, int y, int l, uchar *d) { b->compute_pyr(*p, x, y, l, d); }
void s_be_compute_key(VGBriefExtractor *b, VGImagePyr *p, const struct NXKeypoint *k, uchar *d) { b->compute_pyr(*p, *k, d); }
void s_be_compute_keys(VGBriefExtractor *b, VGImagePyr *p, int n, const struct NXKeypoint *k, VGDescriptorMap *m) { b->compute_pyr(*p, n, k, *m); }
int s_be_distance(int n, const uchar *a, const uchar *b) { return VGBriefExtractor::distance_of(n, a, b); }

// Harris
VGHarrisDetector *s_hd_new() { return new VGHarrisDetector(); }
void s_hd_del(VGHarrisDetector *d) { delete d; }
typedef std::vector<struct NXKeypoint> Keys;
Keys *s_keys_new() { return new Keys(); }
void s_keys_del(Keys *k) { delete k; }
int s_keys_size(Keys *k) { return (int)k->size(); }
struct NXKeypoint *s_keys_at(Keys *k, int i) { return &(*k)[i]; }
int s_hd_detect(VGHarrisDetector *d, VGImage *i, Keys *k, int n, int a) { return d->detect(*i, *k, n, a != 0); }
int s_hd_pyr(VGHarrisDetector *d, VGImagePyr *p, Keys *k, int l, int n, int a) { return d->detect_pyr(*p, *k, l, n, a != 0); }

// annotator
VGImageAnnotator *s_ia_new(VGImage *i) { return new VGImageAnnotator(*i); }
void s_ia_del(VGImageAnnotator *a) { delete a; }
void s_ia_set(VGImageAnnotator *a, VGImage *i) { a->set_image(*i); }
int s_ia_width(VGImageAnnotator *a) { return a->width(); }
int s_ia_height(VGImageAnnotator *a) { return a->height(); }
const VGImage *s_ia_canvas(VGImageAnnotator *a) { return &a->get_canvas(); }
static VGImageAnnotator::MarkType mk(int k) { return k == 0 ? VGImageAnnotator::MARK_POINT : k == 1 ? VGImageAnnotator::MARK_SQUARE : k == 2 ? VGImageAnnotator::MARK_DIAMOND : k == 3 ? VGImageAnnotator::MARK_PLUS : k == 4 ? VGImageAnnotator::MARK_CROSS : VGImageAnnotator::MARK_NONE; }
void s_ia_mark(VGImageAnnotator *a, int k, double x, double y, double s, double r, double g, double b, double al) { a->draw_mark(mk(k), x, y, s, VGColor(r, g, b, al)); }
void s_ia_edge(VGImageAnnotator *a, double x, double y, double xe, double ye, double w, double r, double g, double b, double al, int k, double s) { a->draw_edge(x, y, xe, ye, w, VGColor(r, g, b, al), mk(k), s); }
void s_ia_roi(VGImageAnnotator *a, double x, double y, double w, double h, double lw, double r, double g, double b, double al) { a->draw_roi(x, y, w, h, lw, VGColor(r, g, b, al)); }
void s_ia_key(VGImageAnnotator *a, struct NXKeypoint *k, double r, double g, double b, double al) { a->draw_keypoint(k, VGColor(r, g, b, al)); }
void s_ia_keys(VGImageAnnotator *a, int n, struct NXKeypoint *k, int single) { a->draw_keypoints(n, k, single != 0); }
VGImageAnnotator *s_ia_match(VGImage *l, VGImage *r, Corr *c, int only) { return new VGImageAnnotator(VGImageAnnotator::create_match_image(*l, *r, *c, only != 0)); }
}
