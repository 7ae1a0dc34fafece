# ---- particle-to-grid
ref("p2g-lvar", (S+"p2g.cpp", """                    if (weight > 1e-25){
                        grid_mass_local[ind(i,j)]  += weight;
                        grid_v_local[ind(i,j)]     += particles.v[p] * weight;
                        grid_force_local[ind(i,j)] += tau * weight_grad;
                        if (flip_ratio < 0){ // APIC
                            TV posdiffvec = TV::Zero();
                            posdiffvec(0) = xi-xp(0);
                            posdiffvec(1) = yi-xp(1);
                            grid_v_local[ind(i,j)] += particles.Bmat[p] * posdiffvec * apicDinverse * weight;
                        }
                        if (use_mibf)
                            grid_friction_local[ind(i,j)] += particles.muI[p] * weight;
                    }""", """                    if (weight <= 1e-25)
                        continue;
                    const unsigned int node = ind(i,j);
                    TV contribution = particles.v[p];
                    if (flip_ratio < 0){
                        const TV posdiffvec(xi-xp(0), yi-xp(1));
                        contribution += apicDinverse * (particles.Bmat[p] * posdiffvec);
                    }
                    grid_force_local[node] += tau * weight_grad;
                    grid_v_local[node]     += weight * contribution;
                    grid_mass_local[node]  += weight;
                    if (use_mibf)
                        grid_friction_local[node] += particles.muI[p] * weight;"""))
ref("base-helper", (S+"simulation.hpp", "  T calculateBulkModulus();", "  T calculateBulkModulus();\n  int cellIndex(T xp, T xc) const { return int(std::floor((xp - xc)*one_over_dx)); }\n  unsigned int stencilBase(T xp, T xc) const { return std::max(0, cellIndex(xp, xc) - 1); }"),
    *[(S+f, "std::max(0, int(std::floor((xp(%d)-grid.%sc)*one_over_dx)) - 1)" % (k, c), "stencilBase(xp(%d), grid.%sc)" % (k, c)) for f in ("p2g.cpp", "musl.cpp") for k, c in enumerate("xyz")],
    *[(S+f, "std::floor((xp(%d)-grid.%sc)*one_over_dx) - 1" % (k, c), "cellIndex(xp(%d), grid.%sc) - 1" % (k, c)) for f in ("g2p.cpp", "deformation_update.cpp") for k, c in enumerate("xyz")])
ref("p2g-offset-loops", (S+"p2g.cpp", "for(int i = i_base; i < i_base+4; i++){", "for(int a = 0; a < 4; ++a){\n                const int i = i_base + a;"),
    (S+"p2g.cpp", "for(int j = j_base; j < j_base+4; j++){", "for(int b = 0; b < 4; ++b){\n                    const int j = j_base + b;"),
    (S+"g2p.cpp", "for(int j = j_base; j < j_base+4; j++){", "for(unsigned int j = j_base; j <= j_base+3; ++j){"))
ref("p2g-arrays", (S+"p2g.cpp", """            for(int i = i_base; i < i_base+4; i++){
                T xi = grid.x[i];
                T wi = N((xp(0)-xi)*one_over_dx);
                T wi_grad = dNdu((xp(0) - xi) * one_over_dx)  * one_over_dx;
""", """            T wx[4], wgx[4];
            for (int a = 0; a < 4; a++){
                const T u = (xp(0) - grid.x[i_base + a]) * one_over_dx;
                wx[a]  = N(u);
                wgx[a] = dNdu(u) * one_over_dx;
            }
            for(int i = i_base; i < i_base+4; i++){
                T xi = grid.x[i];
                T wi = wx[i - i_base];
                T wi_grad = wgx[i - i_base];
"""))
ref("p2g-norm", (S+"p2g.cpp", """        T mi = grid.mass[l];
        if (mi > 0)
            grid.v[l] /= mi;
        else
            grid.v[l].setZero();""", """        const T mi = grid.mass[l];
        if (!(mi > 0))
            grid.v[l] = TV::Zero();
        else {
            const T inv = T(1) / mi;
            grid.v[l] *= inv;
        }"""), (S+"p2g.cpp", """    for(auto&& m: grid.mass){
        m *= particle_mass;
    }""", """    for (size_t l = 0; l < grid.mass.size(); ++l)
        grid.mass[l] = particle_mass * grid.mass[l];"""))
ref("p2g-fused", (S+"p2g.cpp", """        if (use_mibf)
            grid.friction[l] /= mi;
    }

    for(auto&& m: grid.mass){
        m *= particle_mass;
    }""", """        if (use_mibf)
            grid.friction[l] /= mi;
        grid.mass[l] = mi * particle_mass;
    }"""))
ref("p2g-critical-split", (S+"p2g.cpp", """                grid.force[l]         += grid_force_local[l];
                if (use_mibf)
                    grid.friction[l]  += grid_friction_local[l];
            } // end for l""", """                grid.force[l]         += grid_force_local[l];
            } // end for l
            if (use_mibf){
                for (int l = 0; l<grid_nodes; l++)
                    grid.friction[l]  += grid_friction_local[l];
            }"""))
ref("p2g-stencil-lambda", (S+"p2g.cpp", """        #pragma omp for nowait
        for(int p = 0; p < Np; p++){
            TV xp = particles.x[p];""", """        auto weight1d = [this](T a, T b){ return N((a - b) * one_over_dx); };
        auto wgrad1d  = [this](T a, T b){ return dNdu((a - b) * one_over_dx) * one_over_dx; };

        #pragma omp for nowait
        for(int p = 0; p < Np; p++){
            const TV& xp = particles.x[p];"""),
    (S+"p2g.cpp", "N((xp(0)-xi)*one_over_dx)", "weight1d(xp(0), xi)"), (S+"p2g.cpp", "dNdu((xp(1) - yi) * one_over_dx)  * one_over_dx", "wgrad1d(xp(1), yi)"))
# ---- euler
ref("euler-reorder", (S+"explicit_euler_update.cpp", """                T mi = grid.mass[index];
                if (mi > 0){

                    TV velocity_increment = -dt_particle_volume * grid.force[index] / mi + dt_gravity;
""", """                const T mi = grid.mass[index];
                if (mi <= 0)
                    continue;
                {
                    TV velocity_increment = dt * (gravity - (particle_volume / mi) * grid.force[index]);
"""))
ref("euler-helper", (S+"explicit_euler_update.cpp", "                    boundaryCollision(index, Xi, new_vi);", "                    applyBoundary(index, Xi, new_vi);"),
    (S+"simulation.hpp", "  T calculateBulkModulus();", "  T calculateBulkModulus();\n  void applyBoundary(int index, const TV& Xi, TV& vi){ TV v = vi; boundaryCollision(index, Xi, v); vi = v; }"),
    (S+"explicit_euler_update.cpp", """                    grid.v[index]    = new_vi;
                    grid.flip[index] = new_vi - old_vi;""", """                    grid.flip[index] = new_vi - grid.v[index];
                    grid.v[index]    = new_vi;"""))
ref("euler-flat", (S+"explicit_euler_update.cpp", """    #pragma omp parallel for collapse(DIMENSION) num_threads(n_threads)
    for(int i = 0; i < Nx; i++){
        for(int j = 0; j < Ny; j++){
#ifdef""", """    #pragma omp parallel for num_threads(n_threads)
    for(int i = 0; i < Nx; i++){
        for(int j = 0; j < Ny; j++){
#ifdef"""))
# ---- g2p
ref("g2p-node", (S+"g2p.cpp", """                    vp += grid.v[ind(i,j)] * weight;
                    v_grad += grid.v[ind(i,j)] * weight_grad.transpose();""", """                    const unsigned int l = ind(i,j);
                    const TV& vn = grid.v[l];
                    v_grad.noalias() += vn * weight_grad.transpose();
                    vp += weight * vn;"""))
ref("g2p-update-fn", (S+"g2p.cpp", """                TM Fe_trial = particles.F[p];
                Fe_trial = Fe_trial + dt * v_grad * Fe_trial;
                particles.F[p] = Fe_trial;
""", """                TM Fe_trial = (TM::Identity() + dt * v_grad) * particles.F[p];
                particles.F[p] = Fe_trial;
"""), (S+"deformation_update.cpp", """        TM Fe_trial = particles.F[p];
        Fe_trial = Fe_trial + dt * v_grad * Fe_trial;
        particles.F[p] = Fe_trial;
""", """        const TM& F_old = particles.F[p];
        TM Fe_trial = F_old + dt * (v_grad * F_old);
        particles.F[p] = Fe_trial;
"""))
ref("g2p-nofill", (S+"g2p.cpp", """            particles.pic[p] = vp;
            if (flip_ratio < 0){ // APIC
                particles.Bmat[p] = Bp;
            }
            if (flip_ratio >= -1){ // PIC-FLIP or AFLIP
                particles.flip[p] = flipp;
            }
""", """            particles.flip[p] = flipp;
            particles.Bmat[p] = Bp;
            particles.pic[p]  = vp;
"""))
ref("g2p-parfor", (S+"g2p.cpp", """    #pragma omp parallel num_threads(n_threads)
    {

        #pragma omp for nowait reduction(+:plastic_count)
""", """    {
        #pragma omp parallel for schedule(static) num_threads(n_threads) reduction(+:plastic_count)
"""))
# ---- musl / position
VEL = """if (flip_ratio < -1){ // APIC
            particles.v[p] = particles.pic[p];
        } else if (flip_ratio < 0){ // AFLIP
            particles.v[p] = (-flip_ratio) * ( particles.v[p] + particles.flip[p] ) + (1 - (-flip_ratio)) * particles.pic[p];
        } else{ // PIC-FLIP
            particles.v[p] =   flip_ratio  * ( particles.v[p] + particles.flip[p] ) + (1 -   flip_ratio)  * particles.pic[p];
        }"""
VELH = """\n  void updateParticleVelocity(unsigned int p){
    if (flip_ratio < -1){ particles.v[p] = particles.pic[p]; return; }
    const T blend = std::abs(flip_ratio);
    const TV flipped = particles.v[p] + particles.flip[p];
    particles.v[p] = blend * flipped + (T(1) - blend) * particles.pic[p];
  }"""
ref("vel-helper", (S+"simulation.hpp", "  T calculateBulkModulus();", "  T calculateBulkModulus();" + VELH), (S+"musl.cpp", VEL, "updateParticleVelocity(p);"),
    (S+"position_update.cpp", VEL.replace("\n        ", "\n            ").replace("        }", "        }"), "updateParticleVelocity(p);"))
ref("musl-norm", (S+"musl.cpp", """        T mi = grid.mass[l];
        if (mi > 0)
            grid.v[l] /= (mi/particle_mass);
        else
            grid.v[l].setZero();""", """        const T mi = grid.mass[l];
        grid.v[l] = (mi > 0) ? TV(grid.v[l] * (particle_mass/mi)) : TV(TV::Zero());"""))
ref("musl-clear", (S+"musl.cpp", "    std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );", "    for (auto& gv : grid.v)\n        gv.setZero();"),
    (S+"musl.cpp", "    for (int l = 0; l<grid_nodes; l++){\n        T mi", "    #pragma omp parallel for num_threads(n_threads)\n    for (int l = 0; l<grid_nodes; l++){\n        T mi"))
ref("pos-wrap", (S+"position_update.cpp", """            if (particles.x[p](0) > Lx){
                particles.x[p](0) = particles.x[p](0) - Lx;
            }
            else if (particles.x[p](0) < 0){
                particles.x[p](0) = Lx + particles.x[p](0);
            }""", """            T& xp = particles.x[p](0);
            if (xp < 0)
                xp += Lx;
            else if (xp > Lx)
                xp -= Lx;"""), (S+"position_update.cpp", "particles.x[p] = particles.x[p] + dt * particles.pic[p];", "particles.x[p] += dt * particles.pic[p];"))
ref("pos-split", (S+"position_update.cpp", """        //// Position is updated according to PIC velocities
        particles.x[p] = particles.x[p] + dt * particles.pic[p];

        if (use_musl == false){""", """        if (!use_musl){"""), (S+"position_update.cpp", """        // If periodic boundary conditions (PBC)
""", """        particles.x[p] = particles.x[p] + particles.pic[p] * dt;

"""))
# ---- dt
ref("dt-loop", (S+"update_dt.cpp", """    auto max_velocity_it = std::max_element( particles.v.begin(), particles.v.end(),
                                             []( const TV &v1, const TV &v2 )
                                             {
                                                 return v1.squaredNorm() < v2.squaredNorm();
                                             } );
    T max_speed = (*max_velocity_it).norm();""", """    T max_speed = 0;
    for (const auto& v : particles.v)
        max_speed = std::max(max_speed, v.norm());"""))
ref("dt-loop2", (S+"update_dt.cpp", """    auto max_velocity_it = std::max_element( particles.v.begin(), particles.v.end(),
                                             []( const TV &v1, const TV &v2 )
                                             {
                                                 return v1.squaredNorm() < v2.squaredNorm();
                                             } );
    T max_speed = (*max_velocity_it).norm();""", """    T max_sq = 0;
    for (int p = 0; p < Np; p++){
        T sq = particles.v[p].squaredNorm();
        if (sq > max_sq)
            max_sq = sq;
    }
    const T max_speed = std::sqrt(max_sq);"""))
ref("dt-min", (S+"update_dt.cpp", """    dt = std::min(dt, frame_dt*(frame+1) - time);
    dt = std::min(dt, final_time         - time);
    dt = std::max(dt, min_dt);""", """    const T to_frame = frame_dt*(frame+1) - time;
    const T to_end   = final_time - time;
    dt = std::max(min_dt, std::min({dt, to_frame, to_end}));"""))
ref("dt-ternary", (S+"update_dt.cpp", """        dt = std::min(dt_cfl, dt_max);
    } else {
        dt = dt_max;""", """        dt = dt_max;
        if (dt_cfl < dt_max)
            dt = dt_cfl;
    } else {
        dt = dt_max;"""), (S+"update_dt.cpp", """        if (time < gravity_time){
            gravity = gravity_final * time/gravity_time;
        }
        else{
            gravity = gravity_final;""", """        if (time >= gravity_time){
            gravity = gravity_final;
        }
        else{
            const T ramp = time / gravity_time;
            gravity = ramp * gravity_final;"""))
# ---- boundary
ref("bc-friction-helper", (S+"simulation.hpp", "  T calculateBulkModulus();", "  T calculateBulkModulus();\n  T nodeFriction(T own, int index) const { return use_mibf ? grid.friction[index] : own; }"),
    (S+"boundary_collision.cpp", """                    T friction = obj->friction;
                    if (use_mibf)
                        friction = grid.friction[index];
""", """                    const T friction = nodeFriction(obj->friction, index);
"""), (S+"boundary_collision.cpp", """                T friction = obj->friction;
                    if (use_mibf)
                        friction = grid.friction[index];
""", """                const T friction = nodeFriction(obj->friction, index);
"""))
ref("bc-continue", (S+"boundary_collision.cpp", """        bool colliding = obj->inside(Xi);
        if (colliding) {
            TV v_rel = vi_orig;
""", """        if (!obj->inside(Xi))
            continue;
        {
            TV v_rel = vi;
"""), (S+"boundary_collision.cpp", """                    TV v_tang = v_rel - dot * n;
                    if (friction > 0){
                        if( -dot * friction < v_tang.norm() )
                            v_rel = v_tang + v_tang.normalized() * dot * friction;
                        else
                            v_rel.setZero();
                    } else{
                        v_rel = v_tang;
                    } // end non-zero friction""", """                    const TV v_tang = v_rel - dot * n;
                    const T speed = v_tang.norm();
                    v_rel = v_tang;
                    if (friction > 0){
                        const T loss = -dot * friction;
                        if (loss >= speed)
                            v_rel.setZero();
                        else
                            v_rel = v_tang * (1 - loss / speed);
                    }"""))
ref("bc-coulomb-static", (S+"boundary_collision.cpp", '#include "simulation.hpp"\n', """#include "simulation.hpp"

// reduces the tangential component vt for the normal speed vn
static void reduceTangential(T& vt, T vn, T friction){
    if (friction == 0)
        return;
    const T drop = friction * std::abs(vn);
    if (std::abs(vt) < drop)
        vt = 0;
    else if (vt > 0)
        vt -= drop;
    else
        vt += drop;
}
"""), *[(S+"boundary_collision.cpp", """                    if (friction == 0){
                        // Do nothing
                    }
                    else if ( std::abs(v%s_rel) < friction * std::abs(v%s_rel) ){
                        v%s_rel = 0; // tangential component also set to zero
                    }
                    else { // just reduce tangential component
                        if (v%s_rel > 0)
                            v%s_rel -= friction * std::abs(v%s_rel);
                        else
                            v%s_rel += friction * std::abs(v%s_rel);
                    }
""" % (t, n, t, t, t, n, t, n), "                    reduceTangential(v%s_rel, v%s_rel, friction);\n" % (t, n)) for t, n in ("xy", "yx")])
ref("bc-3d-helper", (S+"boundary_collision.cpp", '#include "simulation.hpp"\n', """#include "simulation.hpp"
namespace {
void coulomb(T friction, T vn, T& va, T& vb){
    const T vel_t = std::sqrt(va*va + vb*vb);
    const T fric_vel_n = friction * std::abs(vn);
    if (friction == 0) return;
    if (vel_t > fric_vel_n){
        const T scale = (vel_t - fric_vel_n) / vel_t;
        va *= scale; vb *= scale;
        return;
    }
    va = 0; vb = 0;
}
}
"""), *[(S+"boundary_collision.cpp", "                    T vel_t      = std::sqrt(v%s_rel*v%s_rel + v%s_rel*v%s_rel);\n                    T fric_vel_n = friction * std::abs(v%s_rel);\n\n" % (a, a, b, b, n) + """                    if (friction == 0){
                        // Do nothing
                    }
                    else if ( vel_t <= fric_vel_n ){
                        vA_rel = 0; // tangential component also set to zero
                        vB_rel = 0;
                    }
                    else { // just reduce tangential component
                        vA_rel *= (vel_t - fric_vel_n) / vel_t;
                        vB_rel *= (vel_t - fric_vel_n) / vel_t;
                    }
""".replace("vA", "v" + a).replace("vB", "v" + b), "                    coulomb(friction, v%s_rel, v%s_rel, v%s_rel);\n" % (n, a, b)) for a, b, n in ("xzy", "yzx", "xyz")])
ref("bc-switch", (S+"boundary_collision.cpp", """            if (obj->bc == BC::NoSlip) {
                vx_rel = 0;
                vy_rel = 0;
            } // end BC::NoSlip

            else if (obj->bc == BC::SlipStick) {
""", """            const BC bc = obj->bc;
            switch (bc) {
            case BC::NoSlip: {
                vy_rel = 0;
                vx_rel = 0;
                break;
            } // end BC::NoSlip

            case BC::SlipStick: {
"""), (S+"boundary_collision.cpp", """            } // end BC::SlipStick



            else if (obj->bc == BC::SlipFree) {

                T friction = obj->friction;
                    if (use_mibf)
                        friction = grid.friction[index];

                if ((obj->plate_type == PlateType::top && vy_rel > 0) || (obj->plate_type == PlateType::bottom && vy_rel < 0)){
                    // tangential velocity is the (x) component and must be changed
""", """                break;
            } // end BC::SlipStick

            case BC::SlipFree: {

                T friction = obj->friction;
                    if (use_mibf)
                        friction = grid.friction[index];

                if ((obj->plate_type == PlateType::top && vy_rel > 0) || (obj->plate_type == PlateType::bottom && vy_rel < 0)){
                    // tangential velocity is the (x) component and must be changed
"""), (S+"boundary_collision.cpp", """            } // end BC::SlipFree



            else {
                debug("INVALID BOUNDARY CONDITION!!!");
                exit = 1;
                return;
            }

            vi(0) = vx_rel + obj->vx_object;
            vi(1) = vy_rel + obj->vy_object;

            // update velocity copy before next iteration """, """                break;
            } // end BC::SlipFree

            default: {
                debug("INVALID BOUNDARY CONDITION!!!");
                exit = 1;
                return;
            }
            }

            vi << vx_rel + obj->vx_object, vy_rel + obj->vy_object;
"""))
# ---- pbc
PB = """            particles.x.push_back(part_x);
            particles.v.push_back(particles.v[p]);
            particles.F.push_back(particles.F[p]);
            particles.Bmat.push_back(particles.Bmat[p]);
            particles.tau.push_back(particles.tau[p]);
            particles.muI.push_back(particles.muI[p]);
            num_add_pbc_particles++;
            continue; // go directly to next p
"""
ref("pbc-helper", (S+"pbc.cpp", PB, "            addImage(p, part_x);\n            continue; // go directly to next p\n"), (S+"simulation.hpp", "  void PBCDelParticles();", """  void PBCDelParticles();
  void addImage(int p, const TV& pos){
    particles.tau.push_back(particles.tau[p]);
    particles.muI.push_back(particles.muI[p]);
    particles.x.push_back(pos);
    particles.v.push_back(particles.v[p]);
    particles.F.push_back(particles.F[p]);
    particles.Bmat.push_back(particles.Bmat[p]);
    ++num_add_pbc_particles;
  }"""))
ref("pbc-else", (S+"pbc.cpp", """            continue; // go directly to next p
        }

        diff = part_x(0);
        if ( diff""", """        }
        else if (diff = part_x(0); diff""", 1), (S+"pbc.cpp", """            num_add_pbc_particles++;
            continue; // go directly to next p
        }

    } // end loop""", """            num_add_pbc_particles++;
        }

    } // end loop"""))
ref("pbc-resize", *[(S+"pbc.cpp", "    particles.%s.erase(%sparticles.%s.end()%s-num_add_pbc_particles, particles.%s.end()%s);" % (f, a, f, b, f, c), "    particles.%s.resize(particles.%s.size() - num_add_pbc_particles);" % (f, f)) for f, a, b, c in (("x", "   ", "   ", "   "), ("v", "   ", "   ", "   "))])
ref("pbc-popback", (S+"pbc.cpp", "    particles.x.erase(   particles.x.end()   -num_add_pbc_particles, particles.x.end()   );", "    const unsigned int n_real = Np - num_add_pbc_particles;\n    particles.x.erase(particles.x.begin() + n_real, particles.x.end());"))
# ---- remesh
MAXX = """    auto max_x_it = std::max_element( particles.x.begin(), particles.x.end(),
                                             []( const TV &x1, const TV &x2 )
                                             {
                                                 return x1(0) < x2(0);
                                             } );
    T max_x = (*max_x_it)(0);"""
ref("remesh-loop", (S+"remesh.cpp", MAXX, """    T max_x = particles.x[0](0);
    for (const TV& x : particles.x)
        if (x(0) > max_x)
            max_x = x(0);"""))
ref("remesh-ref", (S+"remesh.cpp", """        if (grid_reference_point[0] < min_x){
            min_x = grid_reference_point[0];
        }
        else if (grid_reference_point[0] > max_x){
            max_x = grid_reference_point[0];
        }""", """        min_x = std::min(min_x, grid_reference_point[0]);
        max_x = std::max(max_x, grid_reference_point[0]);"""))
ref("remesh-shift-fn", (S+"remesh.cpp", """    T high_x;
    if (max_x < max_x_init){
        unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
        high_x = high_x_init - reduction_factor * dx;
    } else{
        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8*dx) );
        high_x = high_x_init + expansion_factor * dx;
    }
""", """    auto cells = [](T d){ return (unsigned int)std::floor(std::max(0.0, d)); };
    T high_x = high_x_init;
    if (max_x < max_x_init)
        high_x -= dx * cells((max_x_init-max_x)/dx - 1e-8*dx);
    else
        high_x += dx * cells((max_x-max_x_init)/dx + 1e-8*dx);
"""))
ref("remesh-finalize", (S+"remesh.cpp", """    Nx      = grid.x.size();
    Ny      = grid.y.size();
#ifdef THREEDIM
    Nz      = grid.z.size();
    grid_nodes = Nx*Ny*Nz;
#else
    grid_nodes = Nx*Ny;
#endif

    grid.xc = grid.x[0];
    grid.yc = grid.y[0];
#ifdef THREEDIM
    grid.zc = grid.z[0];
#endif
""", """    finalizeGrid();
"""), (S+"remesh.cpp", "void Simulation::remeshFixedCont(){", """void Simulation::finalizeGrid(){
    grid.xc = grid.x.front();
    grid.yc = grid.y.front();
    Nx = grid.x.size();
    Ny = grid.y.size();
    grid_nodes = Nx * Ny;
#ifdef THREEDIM
    grid.zc = grid.z.front();
    Nz = grid.z.size();
    grid_nodes *= Nz;
#endif
}

void Simulation::remeshFixedCont(){"""), (S+"simulation.hpp", "  void remeshFixedCont();", "  void remeshFixedCont();\n  void finalizeGrid();"))
ref("resize-assign", (S+"remesh.cpp", "    grid.v.resize(grid_nodes);    std::fill( grid.v.begin(),    grid.v.end(),    TV::Zero() );", "    grid.v.assign(grid_nodes, TV::Zero());"),
    (S+"remesh.cpp", "    grid.mass.resize(grid_nodes); std::fill( grid.mass.begin(), grid.mass.end(), 0.0        );", "    grid.mass.clear();\n    grid.mass.resize(grid_nodes, T(0));"))
# ---- simulation
ref("sim-save-helper", (S+"simulation.cpp", """                saveParticleData();
                if (save_grid)
                    saveGridData();
                // saveAvgData();
""", """                saveFrame();
"""), (S+"simulation.hpp", "  void createDirectory();", "  void createDirectory();\n  void saveFrame(){ saveParticleData(); if (save_grid) saveGridData(); }"))
ref("sim-setup-helper", (S+"simulation.cpp", """    lambda = nu * E / ( (1.0 + nu) * (1.0 - 2.0*nu) ); // first Lame parameter
    mu = E / (2.0*(1.0+nu)); // shear modulus
    K = calculateBulkModulus(); // bulk modulus
    wave_speed = std::sqrt(E/rho); // elastic wave speed

    dt_max = cfl_elastic * dx / wave_speed;

    frame_dt = 1.0 / fps;
""", """    frame_dt = 1.0 / fps;
    setupMaterial();
"""), (S+"simulation.hpp", "  T calculateBulkModulus();", """  T calculateBulkModulus();
  void setupMaterial(){
    mu = 0.5 * E / (1.0 + nu);
    lambda = 2.0 * mu * nu / (1.0 - 2.0*nu);
    K = calculateBulkModulus();
    wave_speed = std::sqrt(E / rho);
    dt_max = dx * cfl_elastic / wave_speed;
  }"""))
ref("sim-loop", (S+"simulation.cpp", "    while (frame < end_frame){", "    for (; frame < end_frame; ){"), (S+"simulation.cpp", """        if (exit == 1)
            return;
        time += dt;
        current_time_step++;""", """        if (exit != 0)
            return;
        ++current_time_step;
        time = time + dt;"""))
ref("sim-loop2", (S+"simulation.cpp", """        if (std::abs(final_time-time) < min_dt*1.1 || final_time < time){""", """        const T remaining = final_time - time;
        const bool finished = remaining < 0 || std::abs(remaining) < 1.1*min_dt;
        if (finished){"""), (S+"simulation.cpp", "        if(frame_dt*(frame+1) - time < min_dt*1.1){", "        const T frame_end = frame_dt*(frame+1);\n        if(frame_end - time < min_dt*1.1){"))
ref("sim-step-helper", (S+"simulation.cpp", """    if (pbc){
        if (current_time_step == 0)
            remeshFixed(4);
    }
    else{
        if (current_time_step == 0) {
            remeshFixedInit(2,2,2);
        } else {
            remeshFixedCont();
        }
    }

    if (pbc){
        PBCAddParticles(4);
    }
""", """    updateGridExtent();
"""), (S+"simulation.cpp", "void Simulation::advanceStep(){", """void Simulation::updateGridExtent(){
    const bool first = (current_time_step == 0);
    if (!pbc){
        if (first)
            remeshFixedInit(2,2,2);
        else
            remeshFixedCont();
        return;
    }
    if (first)
        remeshFixed(4);
    PBCAddParticles(4);
}

void Simulation::advanceStep(){"""), (S+"simulation.hpp", "  void advanceStep();", "  void advanceStep();\n  void updateGridExtent();"))
ref("sim-timer", (S+"simulation.cpp", "    timer t_p2g; t_p2g.start();\n    P2G();\n    t_p2g.stop(); runtime_p2g += t_p2g.get_timing();", "    runtime_p2g += timed([this]{ P2G(); });"),
    (S+"simulation.hpp", "  void advanceStep();", "  void advanceStep();\n  template <typename Fn> T timed(Fn fn){ timer t; t.start(); fn(); t.stop(); return t.get_timing(); }"))
ref("sim-mibf", (S+"simulation.cpp", """        if (plastic_model == PlasticModel::DPMui || plastic_model == PlasticModel::MCCMui){
            std::fill(particles.muI.begin(), particles.muI.end(), mu_1);
        } 
        else {// e.g., DPVisc
            std::fill(particles.muI.begin(), particles.muI.end(), M);
        }""", """        const bool mui_model = plastic_model == PlasticModel::DPMui || plastic_model == PlasticModel::MCCMui;
        const T initial_friction = mui_model ? mu_1 : M;
        for (T& f : particles.muI)
            f = initial_friction;"""))
# ---- objects
ref("obj-return", *[("objects/object_%s.hpp" % o, a, b) for o, a, b in (
    ("bump", "        if (y < y_limit)\n            return true;\n        else\n            return false;", "        return y < y_limit;"),
    ("gate", "        if (y > y_limit)\n            return true;\n        else\n            return false;", "        return !(y <= y_limit);"),
    ("curve", "        if (y > x*x)\n            return false;\n        else\n            return true;", "        return x*x - y >= 0;"),
    ("ground", "        if (y > y_ground)\n            return false;\n        else\n            return true;", "        return !(y > y_ground);"),
    ("silo", "        if (r_point_sq < r_surface_sq)\n            return false; \n        else \n            return true; ", "        return std::sqrt(r_point_sq) >= r_surface;"))])
ref("obj-normal", ("objects/object_bump.hpp", """        T b_der = -25 * 0.0475 * std::tanh(arg) / std::cosh(arg);
        n(0) = -b_der;
        n(1) = 1;

        return n.normalized();""", """        T b_der = -25 * 0.0475 * std::sinh(arg) / (std::cosh(arg) * std::cosh(arg));
        const T len = std::sqrt(1 + b_der * b_der);
        n(0) = -b_der / len;
        n(1) = 1 / len;

        return n;"""), ("objects/object_curve.hpp", """        n(0) = -2*x;
        n(1) = 1;

        return n.normalized();""", """        n(0) = -2*x;
        n(1) = 1;
        n.normalize();

        return n;"""), ("objects/object_gate.hpp", """        T b_der = 2.0 * 100 * x;
        n(0) = -b_der;
        n(1) = 1;
        n *= -1;
""", """        n(0) = 200.0 * x;
        n(1) = -1;
"""), ("objects/object_silo.hpp", """        T theta = std::atan2(z, x);
        T sech_y = 1.0 / std::cosh(y); 

        n(0) = -std::cos(theta);
        n(1) =  sech_y * sech_y; // always >= 0
        n(2) = -std::sin(theta);
""", """        const T r = std::sqrt(x*x + z*z);
        const T t = std::tanh(y);

        n(0) = -x / r;
        n(1) = 1 - t * t;
        n(2) = -z / r;
"""))
ref("plate-inside", ("objects/object_plate.hpp", """            if (X_in(1) < pos_upper && X_in(1) > pos_lower && (X_in(0) - pos_object) <= 0){
                return true;
            } else{
                return false;
            }
        }
        else if""", """            return within(X_in(1)) && X_in(0) <= pos_object;
        }
        else if""", 1), ("objects/object_plate.hpp", "  T pos_object;\n", "  bool within(T t) const { return pos_lower < t && t < pos_upper; }\n\n  T pos_object;\n"))
ref("plate-move", ("objects/object_plate.hpp", """      T factor = (time < load_factor * frame_dt) ? (1.0 / vmin_factor) : 1.0;
      vx_object = vx_object_original * factor;
      vy_object = vy_object_original * factor;
""", """      const bool loading = time < load_factor * frame_dt;
      T factor = 1.0;
      if (loading)
          factor /= vmin_factor;
      vx_object = factor * vx_object_original;
      vy_object = factor * vy_object_original;
"""), ("objects/object_plate.hpp", """          pos_object += dt * vx_object;
          pos_upper  += dt * vy_object;
          pos_lower  += dt * vy_object;""", """          const T shift = dt * vy_object;
          pos_upper  = pos_upper + shift;
          pos_lower  = pos_lower + shift;
          pos_object = pos_object + vx_object * dt;"""))
# ---- tools
ref("tools-spline", ("tools.hpp", """        if (uabs < 0.5){
            return 0.75 - uabs * uabs;
        }
    		else if (uabs < 1.5){
            return 0.5 * (1.5 - uabs) * (1.5 - uabs);
        }
    		else {
            return 0;
    	}""", """        if (uabs >= 1.5)
            return 0;
        if (uabs >= 0.5){
            const T s = 1.5 - uabs;
            return 0.5 * s * s;
        }
        return 0.75 - u * u;"""), ("tools.hpp", "            return (u - 1.5*sgn(u));", "            return u > 0 ? u - 1.5 : u + 1.5;"),
    ("tools.hpp", "            return 0.5 * uabs*uabs*uabs - uabs*uabs + 0.6666666666666666666666666666666666666666666666666;", "            return (0.5 * uabs - 1.0) * u * u + 2.0/3.0;"))
ref("tools-arange", ("tools.hpp", """    for (T value = start; value < stop; value += step)
        values.push_back(value);""", """    T value = start;
    while (value < stop){
        values.push_back(value);
        value += step;
    }"""))
ref("tools-ddot", ("tools.hpp", """    #ifdef THREEDIM
    T out = A(0,0)*A(0,0) + A(0,1)*A(0,1) + A(0,2)*A(0,2)
          + A(1,0)*A(1,0) + A(1,1)*A(1,1) + A(1,2)*A(1,2)
          + A(2,0)*A(2,0) + A(2,1)*A(2,1) + A(2,2)*A(2,2);
    #else
    T out = A(0,0)*A(0,0) + A(0,1)*A(0,1)
          + A(1,0)*A(1,0) + A(1,1)*A(1,1);
    #endif
""", """    T out = 0;
    for (int i = 0; i < DIMENSION; i++)
        for (int j = 0; j < DIMENSION; j++)
            out += A(i,j) * A(i,j);
"""))
# ---- plasticity
ref("pl-rebuild", (S+"simulation.hpp", "  T calculateBulkModulus();", """  T calculateBulkModulus();
  static TM rebuild(const Eigen::JacobiSVD<TM>& svd, const TV& h){ return svd.matrixU() * h.array().exp().matrix().asDiagonal() * svd.matrixV().transpose(); }"""),
    (S+"plasticity.cpp", "svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose()", "rebuild(svd, hencky)"))
ref("pl-dp", (S+"plasticity.cpp", """                T delta_gamma = d_prefac * hencky_deviatoric_norm;
                particles.delta_gamma[p] = delta_gamma / dt;
                particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
                particles.eps_pl_vol[p] += (p_proj-p_trial)/K;
            }""", """                particles.eps_pl_vol[p] += (p_proj-p_trial)/K;
                particles.eps_pl_dev[p] += hencky_deviatoric_norm;
                particles.delta_gamma[p] = d_prefac * hencky_deviatoric_norm / dt;
            }"""), (S+"plasticity.cpp", """                T delta_gamma = d_prefac * (hencky_deviatoric_norm - q_yield / e_mu_prefac);

                if (delta_gamma > 0){ // project to yield surface
                    plastic_count++;
                    particles.delta_gamma[p] = delta_gamma / dt;

                    hencky -= (1.0/d_prefac) * delta_gamma * hencky_deviatoric;""", """                const T excess = hencky_deviatoric_norm - q_yield / e_mu_prefac;
                T delta_gamma = d_prefac * excess;

                if (q_trial > q_yield){ // project to yield surface
                    ++plastic_count;
                    particles.delta_gamma[p] = delta_gamma / dt;

                    hencky -= excess * hencky_deviatoric;"""))
ref("pl-stress-helper", (S+"plasticity.cpp", """            T e_trace = hencky.sum();
            TV Kirchhoff_principal = lambda*e_trace*TV::Ones() + T(2.)*mu*hencky;
            particles.tau[p] = svd.matrixU() * Kirchhoff_principal.array().matrix().asDiagonal() * svd.matrixU().transpose();""",
   """            particles.tau[p] = henckyStress(svd.matrixU(), hencky);"""), (S+"simulation.hpp", "  T calculateBulkModulus();", """  T calculateBulkModulus();
  TM henckyStress(const TM& U, const TV& eps) const {
    TV principal;
    const T pressure_part = lambda * eps.sum();
    for (int d = 0; d < DIMENSION; d++)
        principal(d) = pressure_part + 2 * mu * eps(d);
    return U * principal.asDiagonal() * U.transpose();
  }"""))
ref("pl-neo", (S+"plasticity.cpp", """            dPsidF = mu * (Fe - Fe.transpose().inverse()) + lambda * std::log(Fe.determinant()) * Fe.transpose().inverse();
            particles.tau[p] = dPsidF * Fe.transpose();""", """            particles.tau[p] = mu * (Fe * Fe.transpose() - TM::Identity()) + lambda * std::log(Fe.determinant()) * TM::Identity();"""))
ref("pl-dpsoft-else", (S+"plasticity.cpp", """            // right of tip AND inside yield surface, i.e., elastic states
            if ((p_trial+p_shift) > p_tip && q_trial <= q_yield) {""", """            else if (q_trial <= q_yield) {"""), (S+"plasticity.cpp", """            // right of tip AND outside yield surface
            if ((p_trial+p_shift) > p_tip && q_trial > q_yield) {
                plastic_count++;

                T temp_eps""", """            else {
                plastic_count++;

                T temp_eps"""))
ref("pl-visc-fn", (S+"plasticity.cpp", """                    if (use_duvaut_lions_formulation){
                        delta_gamma = (q_trial-q_yield) / (f_mu_prefac*(1+visc_time/dt));
                    }
                    else{ // perzyna
                        delta_gamma = (q_trial-q_yield) / (f_mu_prefac + q_yield*visc_time/dt);
                    }""", """                    const T rate = visc_time / dt;
                    const T denom = use_duvaut_lions_formulation ? f_mu_prefac + f_mu_prefac * rate : f_mu_prefac + q_yield * rate;
                    delta_gamma = (q_trial-q_yield) / denom;"""))
ref("pl-while", (S+"plasticity.cpp", """                                T residual = (q_trial - f_mu_prefac * delta_gamma) * tmp1 - q_yield;""", """                                const T q_new = q_trial - f_mu_prefac * delta_gamma;
                                T residual = q_new * tmp1 - q_yield;"""), (S+"plasticity.cpp", "                    if (std::abs(p_trial + p_shift) < 1e-10)\n                        particles.muI[p] = 1e10;\n                    else\n                        particles.muI[p] = ((q_trial - f_mu_prefac * delta_gamma) - q_cohesion) / (p_trial + p_shift);", "                    const T p_eff = p_trial + p_shift;\n                    const T q_new = q_trial - f_mu_prefac * delta_gamma;\n                    particles.muI[p] = (std::abs(p_eff) < 1e-10) ? T(1e10) : (q_new - q_cohesion) / p_eff;"))
ref("pl-mcc", (S+"plasticity.cpp", """                T eps_pl_vol_inst = - b * (p_trial - p_stress) / K;
                T eps_pl_dev_inst =   b * (q_trial - q_stress) / e_mu_prefac;
                
                particles.eps_pl_vol[p] += eps_pl_vol_inst;
                particles.eps_pl_dev[p] += eps_pl_dev_inst;
""", """                const T eps_pl_vol_inst = b * (p_stress - p_trial) / K;
                const T eps_pl_dev_inst = b * (q_trial - q_stress) / e_mu_prefac;
                particles.eps_pl_dev[p] = particles.eps_pl_dev[p] + eps_pl_dev_inst;
                particles.eps_pl_vol[p] = particles.eps_pl_vol[p] + eps_pl_vol_inst;
"""), (S+"plasticity.cpp", """                T h_vol = - p_trial / K         - eps_pl_vol_inst;
                T h_dev = q_trial / e_mu_prefac - eps_pl_dev_inst;""", """                T h_vol = hencky_trace - eps_pl_vol_inst;
                T h_dev = hencky_deviatoric_norm - eps_pl_dev_inst;"""))
ref("pl-mui", (S+"plasticity.cpp", """                T delta_gamma = (-fac_b + std::sqrt(fac_b*fac_b - 4*fac_a*fac_c) ) / (2*fac_a); // always if because a>0 and c<0
""", """                const T disc = fac_b*fac_b - 4*fac_a*fac_c;
                T delta_gamma = 0.5 * (std::sqrt(disc) - fac_b) / fac_a;
"""), (S+"plasticity.cpp", """                delta_gamma *= dt; // this is the actual delta_gamma

                hencky -= (1.0/d_prefac) * delta_gamma * hencky_deviatoric;""", """                particles.delta_gamma[p] = delta_gamma;
                delta_gamma *= dt; // this is the actual delta_gamma

                hencky = hencky - (delta_gamma / d_prefac) * hencky_deviatoric;"""), (S+"plasticity.cpp", """                particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
                particles.delta_gamma[p] = delta_gamma / dt;

            } // end plastic projection

        } // end DPMui""", """                particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;

            } // end plastic projection

        } // end DPMui"""))
ref("pl-mcc-explicit", ("plasticity_helpers/mcc_rma_explicit.hpp", """    T y = M * M * (p - p0) * (p + beta * p0) + (q * q);

    if (y > 0) {
""", """    T y = M * M * (p - p0) * (p + beta * p0) + (q * q);

    if (y <= 0)
        return false;
    {
"""), ("plasticity_helpers/mcc_rma_explicit.hpp", """    } // end if outside
    return false;
}""", """    }
}"""), ("plasticity_helpers/mcc_rma_explicit.hpp", """        p = std::max(p, -beta * p0);
        p = std::min(p, p0);""", """        p = std::min(std::max(p, -beta * p0), p0);"""))
# ---- save
ref("save-lambda", (S+"save_data.cpp", """        file.add_properties_to_element(
        "vertex",
        { "p" },
        type,
        pressure_vec.size(),
        reinterpret_cast<uint8_t*>(pressure_vec.data()),
        tinyply::Type::INVALID,
        0);
""", """    auto add_scalar = [&](const std::string& label, std::vector<T>& values){
        file.add_properties_to_element("vertex", { label }, type, values.size(), reinterpret_cast<uint8_t*>(values.data()), tinyply::Type::INVALID, 0);
    };
    add_scalar("p", pressure_vec);
"""), (S+"save_data.cpp", """    file.add_properties_to_element(
        "vertex",
        { "q" },
        type,
        devstress_vec.size(),
        reinterpret_cast<uint8_t*>(devstress_vec.data()),
        tinyply::Type::INVALID,
        0);
""", """    add_scalar("q", devstress_vec);
"""))
ref("save-compute", (S+"save_data.cpp", """        TM tau = particles.tau[p];

        T Je = Fe.determinant();

        T pressure  = -tau.trace() / dim;
        TM tau_dev = tau + pressure * TM::Identity();
        T devstress = q_prefac * std::sqrt(selfDoubleDot(tau_dev));

        pressure_vec[p] = pressure;
        devstress_vec[p] = devstress;
        Je_vec[p] = Je;""", """        const TM& tau = particles.tau[p];
        Je_vec[p] = Fe.determinant();
        const T mean = tau.trace() / dim;
        pressure_vec[p] = -mean;
        const TM tau_dev = tau - mean * TM::Identity();
        devstress_vec[p] = q_prefac * tau_dev.norm();"""))
ref("save-pushback", (S+"save_data.cpp", """    grid_x_save.resize(grid_nodes);
""", """    grid_x_save.reserve(grid_nodes);
"""), (S+"save_data.cpp", """                grid_x_save[counter] = grid_x_node;
                counter++;""", """                grid_x_save.push_back(grid_x_node);"""))
ref("save-path", (S+"save_data.cpp", """    std::string filename = directory + sim_name + "/particles_f" + extra + std::to_string(frame) + ".ply";
    std::ofstream out;
    out.open(filename, std::ios::out | std::ios::binary);""", """    const std::string base = directory + sim_name + "/";
    const std::string filename = base + "particles_f" + extra + std::to_string(frame) + ".ply";
    std::ofstream out(filename, std::ios::binary);"""), (S+"save_data.cpp", """    infoFile << end_frame           << "\\n"   // 0
             << fps                 << "\\n"   // 1""", """    infoFile << end_frame << "\\n";
    infoFile << fps << "\\n"   // 1"""))
# ---- sampling
ref("samp-range", ("sampling/regular_sampling_particles.hpp", """        for(int p = 0; p < square_samples.size(); p++){
            T xp = square_samples[p][0];
            T y_gate = height + 100 * (xp - Lx) * (xp - Lx) - 0.5 * sim.dx;
            if (square_samples[p][1] < y_gate){
                samples.push_back(square_samples[p]);
            }
        }""", """        for (const TV& s : square_samples){
            const T d = s[0] - Lx;
            if (s[1] < height + 100 * d * d - 0.5 * sim.dx)
                samples.push_back(s);
        }"""), ("sampling/regular_sampling_particles.hpp", """    {
        TV point(
            Lx0 + (i + T(0.5)) * pSpacing,
            Ly0 + (j + T(0.5)) * pSpacing
        );

        square_samples.push_back(point);
    }""", """    {
        const T px = (i + T(0.5)) * pSpacing;
        const T py = (j + T(0.5)) * pSpacing;
        square_samples.emplace_back(px, py);
    }"""))
ref("samp-poisson", ("sampling/sampling_particles.hpp", """            for(int d = 0; d < 2; d++){
                sim.particles.x[p](d) = samples[p][d];
            }""", """            sim.particles.x[p] = TV(samples[p][0], samples[p][1]);"""), ("sampling/sampling_particles.hpp", """        sim.dx = std::sqrt(ppc / T(square_samples.size()) * Lx*Ly);
        sim.particle_volume = sim.dx * sim.dx / ppc; // = Lx*Ly / T(square_samples.size())
        sim.particle_mass = sim.rho * sim.particle_volume;""", """        const T n_samples = square_samples.size();
        sim.dx = std::sqrt(Lx * Ly * ppc / n_samples);
        sim.particle_volume = Lx * Ly / n_samples;
        sim.particle_mass = sim.particle_volume * sim.rho;"""))
ref("data-ctor", ("data_structures.hpp", "      x.resize(Np); std::fill( x.begin(), x.end(), TV::Zero() );", "      x.assign(Np, TV::Zero());"), ("data_structures.hpp", "      delta_gamma.resize(Np); std::fill( delta_gamma.begin(), delta_gamma.end(), 0.0 );", "      delta_gamma = std::vector<T>(Np, 0.0);"))
# ---- no-ops
ref("noop", *[(S+f, sig, sig + "\n    (void)0;\n    int unused_marker = 0; unused_marker += 1;") for f, sig in (("p2g.cpp", "void Simulation::P2G(){"), ("g2p.cpp", "void Simulation::G2P(){"), ("musl.cpp", "void Simulation::MUSL(){"), ("plasticity.cpp", "void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & Fe_trial){"), ("boundary_collision.cpp", "void Simulation::boundaryCollision(int index, TV Xi, TV& vi){"), ("save_data.cpp", "void Simulation::saveParticleData(std::string extra){"), ("simulation.cpp", "void Simulation::simulate(){"), ("simulation.cpp", "void Simulation::advanceStep(){"), ("update_dt.cpp", "void Simulation::updateDt(){"), ("pbc.cpp", "void Simulation::PBCDelParticles(){"), ("remesh.cpp", "void Simulation::remeshFixedCont(){"))])
ref("sim-final-save", (S+"simulation.cpp", """            std::cout << "The simulation ended at time = " << time << std::endl;
            if (save_sim){
                saveParticleData();
                if (save_grid)
                    saveGridData();
                // saveAvgData();
            }
            break;""", """            std::cout << "The simulation ended at time = " << time << std::endl;
            break;"""), (S+"simulation.cpp", "    std::chrono::steady_clock::time_point end =", """    if (save_sim){
        saveParticleData();
        if (save_grid)
            saveGridData();
    }

    std::chrono::steady_clock::time_point end ="""))
ref("sim-break-exit", (S+"simulation.cpp", """        if (exit == 1)
            return;
        time""", """        if (exit == 1)
            break;
        time"""), (S+"simulation.cpp", "    std::chrono::steady_clock::time_point end =", """    if (exit == 1)
        return;
    std::chrono::steady_clock::time_point end ="""))
