# Builds the pybind11 modules of $(REPO_CPP) (a mirror of /repo/cpp) in the current directory.
# VARIANT=plain | asan | cov.  Modelled on the stand-in makefile of the sandbox, with our own flags and
# our own output directory, so that /repo/cpp and /opt are never written.
PY     := /usr/bin/python3
SRC    := src
PYBIND := /opt/pybind11-2.10.4/pybind11
INC    := $(shell pkg-config --cflags-only-I dolfin) -I/usr/include/eigen3 -isystem $(PYBIND)/include -I$(shell $(PY) -c 'import sysconfig; print(sysconfig.get_path("include"))')
DEFS   := -DHAS_HDF5 -DHAS_SLEPC -DHAS_PETSC -DHAS_UMFPACK -DHAS_CHOLMOD -DHAS_SCOTCH -DHAS_ZLIB -DHAS_MPI -DPYBIND11_INTERNALS_VERSION=5
ifeq ($(VARIANT),asan)
OPT    := -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS
LDX    := -fsanitize=address,undefined -fno-sanitize=vptr,alignment
else ifeq ($(VARIANT),cov)
OPT    := -O0 --coverage
LDX    := --coverage
else
OPT    := -O2
LDX    :=
endif
CXXF   := $(OPT) -w -std=c++11 -fPIC -fvisibility=hidden -ffile-prefix-map=$(SRC)/=/repo/cpp/ $(DEFS) $(INC)
LIBS   := -ldolfin

BF := user_particle_boundary_functions
MODULES := dolfin_functions_solib mesh_entity_arrays_solib \
	numpy_types_solib segmented_array_pair_solib \
	$(BF)_cartesian_x_solib $(BF)_cartesian_xy_solib $(BF)_cartesian_xyz_solib \
	$(BF)_2D_e_cartesian_xy_solib upbfs_spherical_r_solib \
	particle_cartesian_x_solib particle_cartesian_xy_solib particle_cartesian_xyz_solib \
	particle_spherical_r_solib

all: $(addsuffix .so,$(MODULES))

define module
$(1).o: $(SRC)/$(2).cpp
	g++ -c -DMODULE_NAME=$(1) $(3) $$(CXXF) $(SRC)/$(2).cpp -o $$@
$(1).so: $(1).o $(4)
	g++ -shared $$(LDX) $$^ -o $$@ $(if $(5),$(5),)
endef

PART := predicates.o MeshEntityArrays.o dolfin_functions.o

$(eval $(call module,particle_cartesian_xyz_solib,particle_solib,-DPARTICLE_TYPE=cartesian_xyz -DPARTICLE_CARTESIAN_XYZ -DPDIM=3,$(PART),$(LIBS)))
$(eval $(call module,particle_cartesian_xy_solib,particle_solib,-DPARTICLE_TYPE=cartesian_xy -DPARTICLE_CARTESIAN_XY -DPDIM=2,$(PART),$(LIBS)))
$(eval $(call module,particle_cartesian_x_solib,particle_solib,-DPARTICLE_TYPE=cartesian_x -DPARTICLE_CARTESIAN_X -DPDIM=1,$(PART),$(LIBS)))
$(eval $(call module,particle_spherical_r_solib,particle_solib,-DPARTICLE_TYPE=spherical_r -DPARTICLE_SPHERICAL_R -DPDIM=1,$(PART),$(LIBS)))
$(eval $(call module,dolfin_functions_solib,dolfin_functions_solib,,$(PART),$(LIBS)))
$(eval $(call module,mesh_entity_arrays_solib,mesh_entity_arrays_solib,,MeshEntityArrays.o,$(LIBS)))
$(eval $(call module,numpy_types_solib,numpy_types_solib,,,))
$(eval $(call module,segmented_array_pair_solib,segmented_array_pair_solib,,,))
$(eval $(call module,$(BF)_cartesian_x_solib,$(BF)_solib,-DPARTICLE_TYPE=cartesian_x -DPDIM=1,,))
$(eval $(call module,$(BF)_cartesian_xy_solib,$(BF)_solib,-DPARTICLE_TYPE=cartesian_xy -DPDIM=2,,))
$(eval $(call module,$(BF)_cartesian_xyz_solib,$(BF)_solib,-DPARTICLE_TYPE=cartesian_xyz -DPDIM=3,,))
$(eval $(call module,$(BF)_2D_e_cartesian_xy_solib,$(BF)_2D_e_solib,-DPARTICLE_TYPE=cartesian_xy -DPDIM=2,,))
$(eval $(call module,upbfs_spherical_r_solib,upbfs_spherical_r_solib,-DPARTICLE_TYPE=spherical_r -DPDIM=1,,))

$(eval $(call module,vmon_cartesian_x_solib,vmon,-DPARTICLE_TYPE=cartesian_x -DPDIM=1,,))
$(eval $(call module,vmon_cartesian_xy_solib,vmon,-DPARTICLE_TYPE=cartesian_xy -DPDIM=2,,))
$(eval $(call module,vmon_cartesian_xyz_solib,vmon,-DPARTICLE_TYPE=cartesian_xyz -DPDIM=3,,))
$(eval $(call module,vmon_spherical_r_solib,vmon,-DPARTICLE_TYPE=spherical_r -DPDIM=1,,))

$(PART): %.o: $(SRC)/%.cpp
	g++ -c $(CXXF) $< -o $@

.PHONY: all
