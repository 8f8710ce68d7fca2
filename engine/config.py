"""which contract drivers decide which property"""
REPO = '/repo'
FLAGS = ['-std=c++14', '-DGC_HAVE_SUITESPARSE', '-DNOMINMAX', '-D_USE_MATH_DEFINES', '-DEIGEN_DONT_VECTORIZE', '-I/repo/include', '-I/repo/src',
         '-I/repo/deps/nanort/include', '-I/repo/deps/nanoflann/include', '-I/repo/deps/happly', '-isystem', '/usr/include/suitesparse',
         '-isystem', '/usr/include/eigen3', '-I/verif/contracts', '-fno-access-control', '-w']
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-DNDEBUG', '-ffp-contract=off', '-S', '-emit-llvm']
NATFLAGS = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVF_NATIVE', '-DNDEBUG', '-ffp-contract=off', '-c']

# property -> drivers (files of /verif/contracts), srcs (files of /repo/src compiled alongside)
MESH = dict(srcs=['surface/surface_mesh.cpp', 'surface/manifold_surface_mesh.cpp'], natsrcs=['utilities/utilities.cpp', 'utilities/disjoint_sets.cpp'])
PROPS = {
    'C07': dict(drivers=['vectors.cpp'], srcs=[], slow=['v3_angleInPlane']),
    'C08': dict(drivers=['elemgeom.cpp'], srcs=['utilities/elementary_geometry.cpp'], slow=['tetFourthPoint']),
    'C09': dict(drivers=['quat.cpp'], srcs=['utilities/quaternion.cpp']),
    'C01': dict(drivers=['mesh_sym.cpp', 'mesh_ops.cpp'], **MESH),
    'C02': dict(drivers=['mesh_sym.cpp', 'mesh_ops.cpp'], **MESH),
    'C04': dict(drivers=['compress.cpp'], srcs=MESH['srcs'] + ['pointcloud/point_cloud.cpp'], natsrcs=MESH['natsrcs']),
    'C05': dict(drivers=['containers.cpp'], srcs=MESH['srcs'] + ['pointcloud/point_cloud.cpp'], natsrcs=MESH['natsrcs']),
    'C06': dict(drivers=['nav.cpp'], **MESH),
    'C10': dict(drivers=['points.cpp'], srcs=MESH['srcs'] + ['surface/surface_point.cpp'], natsrcs=MESH['natsrcs']),
    'C11': dict(drivers=['barycentric.cpp'], srcs=MESH['srcs'] + ['surface/surface_point.cpp', 'surface/barycentric_vector.cpp', 'surface/intrinsic_geometry_interface.cpp'],
                natsrcs=MESH['natsrcs'] + ['surface/edge_length_geometry.cpp', 'surface/base_geometry_interface.cpp']),
    'C12': dict(drivers=['managed.cpp'], srcs=['surface/base_geometry_interface.cpp', 'surface/intrinsic_geometry_interface.cpp', 'surface/extrinsic_geometry_interface.cpp', 'surface/embedded_geometry_interface.cpp', 'pointcloud/point_position_geometry.cpp'],
                natsrcs=MESH['srcs'] + MESH['natsrcs'] + ['surface/edge_length_geometry.cpp', 'surface/vertex_position_geometry.cpp', 'surface/polygon_mesh_helpers.cpp']),
    'C13': dict(drivers=['sets.cpp'], srcs=['utilities/disjoint_sets.cpp']),
    'C14': dict(drivers=['geometry.cpp'], srcs=MESH['srcs'] + ['surface/intrinsic_geometry_interface.cpp', 'surface/extrinsic_geometry_interface.cpp', 'surface/embedded_geometry_interface.cpp'],
                natsrcs=MESH['natsrcs'] + ['surface/base_geometry_interface.cpp', 'surface/edge_length_geometry.cpp', 'surface/vertex_position_geometry.cpp', 'surface/polygon_mesh_helpers.cpp']),
    'C19': dict(drivers=['operators.cpp'], srcs=MESH['srcs'] + ['surface/intrinsic_geometry_interface.cpp', 'surface/extrinsic_geometry_interface.cpp', 'surface/embedded_geometry_interface.cpp'],
                natsrcs=MESH['natsrcs'] + ['surface/base_geometry_interface.cpp', 'surface/edge_length_geometry.cpp', 'surface/vertex_position_geometry.cpp', 'surface/polygon_mesh_helpers.cpp']),
    'C15': dict(drivers=['normalcoords.cpp'], srcs=MESH['srcs'] + ['surface/normal_coordinates.cpp'], natsrcs=MESH['natsrcs']),
    'C16': dict(drivers=['general.cpp'], **MESH),
    'C20': dict(drivers=['linalg.cpp'], srcs=['numerical/linear_algebra_utilities.cpp'], natsrcs=['utilities/utilities.cpp']),
    'C18': dict(drivers=['construct.cpp'], **MESH),
    'C17': dict(drivers=['handles.cpp'], srcs=MESH['srcs'] + ['surface/surface_point.cpp'], natsrcs=MESH['natsrcs']),
    'C03': dict(drivers=['mesh_counts.cpp', 'cloud_counts.cpp', 'mesh_sym.cpp', 'mesh_ops.cpp'], srcs=MESH['srcs'] + ['pointcloud/point_cloud.cpp'], natsrcs=MESH['natsrcs']),
}
