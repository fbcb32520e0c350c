/* A compiled scene, of the form aarxc writes.  PLUG is a or b. */
#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <string.h>
#include <stdio.h>
#ifdef PLUG_A
#define P "a"
#define V0 1.5f
#else
#define P "b"
#define V0 -2.25f
#endif
struct aa_rx_mesh *aa_rx_dl_mesh__body(void);
struct aa_rx_sg *aa_rx_dl_sg__arm(struct aa_rx_sg *sg, const char *root);
struct aa_rx_sg *aa_rx_dl_sg__hand(struct aa_rx_sg *sg, const char *root);

struct aa_rx_mesh *aa_rx_dl_mesh__body(void)
{
    struct aa_rx_mesh *m = aa_rx_mesh_create();
    static const float vertices[] = {V0,0,0, 0,V0,0, 0,0,V0};
    static const float normals[] = {0,0,1, 0,1,0, 1,0,0};
    static const unsigned indices[] = {0,1,2};
    static const unsigned char rgba[] = {10,20,30,40};
    static const float uv[] = {0.25f,0.5f, 0.25f,0.5f, 0.25f,0.5f};
    aa_rx_mesh_set_vertices(m,3,vertices,0);
    aa_rx_mesh_set_indices(m,1,indices,0);
    aa_rx_mesh_set_normals(m,3,normals,0);
    aa_rx_mesh_set_rgba(m,1,1,rgba,0);
    aa_rx_mesh_set_uv(m,3,uv,0);
    return m;
}

static const double id_q[4] = {0,0,0,1};
static const double v0[3] = {V0,2,3};
static const double ax[3] = {0,0,1};

struct aa_rx_sg *aa_rx_dl_sg__arm(struct aa_rx_sg *sg, const char *root)
{
    if( NULL == sg ) sg = aa_rx_sg_create();
    aa_rx_sg_add_frame_revolute(sg,root,P "0",id_q,v0,P "q",ax,0);
    aa_rx_sg_set_limit_pos(sg,P "q",-1,V0*V0);
    aa_rx_sg_add_frame_fixed(sg,P "0",P "1",id_q,v0);
    struct aa_rx_mesh *m = aa_rx_dl_mesh__body();
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    aa_rx_geom_opt_set_collision(o,1);
    aa_rx_geom_opt_set_visual(o,1);
    aa_rx_geom_attach(sg,P "1",aa_rx_geom_mesh(o,m));
    aa_rx_geom_opt_destroy(o);
    aa_rx_mesh_destroy(m);
    aa_rx_sg_allow_collision_name(sg,P "0",P "1",1);
    return sg;
}

struct aa_rx_sg *aa_rx_dl_sg__hand(struct aa_rx_sg *sg, const char *root)
{
    if( NULL == sg ) sg = aa_rx_sg_create();
    aa_rx_sg_add_frame_fixed(sg,root,P "h",id_q,v0);
    struct aa_rx_mesh *m = aa_rx_dl_mesh__body();
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    aa_rx_geom_attach(sg,P "h",aa_rx_geom_mesh(o,m));
    aa_rx_geom_opt_destroy(o);
    aa_rx_mesh_destroy(m);
    return sg;
}
