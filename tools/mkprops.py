"""Writes properties.jsonl (kept as a script so that the statements live in one readable place)."""
import json, os
H="C++/DifferentiableRenderer.h"; R="deodr/differentiable_renderer.py"; M="deodr/triangulated_mesh.py"
X="deodr/differentiable_renderer_cython.pyx"; T="deodr/tools.py"; L="deodr/laplacian_rigid_energy.py"
F="deodr/mesh_fitter.py"; PR="deodr/pytorch/differentiable_renderer_pytorch.py"; PM="deodr/pytorch/triangulated_mesh_pytorch.py"
P=[]
def p(id,title,st,over,q,why,files,mech,**k):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**k)))
p("C01","Triangles cover exactly the pixels selected by the fill rule",
 "A drawn triangle changes exactly the pixels whose centre it contains. A centre lying exactly on an edge belongs, with strict edges, only to the triangle on the left of that edge (above it if the edge is horizontal), so that triangles sharing an edge leave neither gap nor overlap, and with non-strict edges to every triangle having that edge. Pixel centres are at integer coordinates, or at half integers when that option is chosen.",
 ["inputs","configurations"],"all vertex positions (inside, across or far outside the image, flat, tiny, axis-aligned or on pixel centres), all image sizes, both edge modes, both pixel-centre conventions",
 "The tests render two pinned scenes with strict edges and compare a hash: a handful of generic vertex positions, no non-strict edge, no centre lying exactly on an edge.",
 [H],[("row ranges of both halves of a triangle","get_triangle_stencil_equations"),("pixel range of a row","get_xrange, floor_div, ceil_div"),("half pixel shift","renderScene")],observe_at=["image and depth buffer returned by rendering"])
p("C02","The nearest drawn triangle is visible and its depth is recorded",
 "Every pixel shows the covering drawn triangle that is nearest at that pixel (the first one in face order on an exact tie) and the depth buffer holds its depth there, linear in the image or perspective-correct as requested; a pixel covered by none shows the background with an infinite depth. Triangles with a vertex behind the camera or without area are never drawn, and back faces, as defined by the clockwise option, are skipped exactly when culling is on.",
 ["inputs","configurations"],"all scenes: any number and order of triangles, any depths including ties and negative values, background image or colour, culling on and off, both orientations, both interpolation modes",
 "Tests use a few closed meshes with culling where ordering hardly matters; no test checks the depth buffer, culling off, ties or vertices behind the camera.",
 [H],[("facing and visibility selection","renderScene"),("signed area","signedArea"),("depth test","render_part_interpolated, render_part_textured_gouraud")],observe_at=["image and depth buffer returned by rendering"])
p("C03","Vertex colours are interpolated linearly or perspective-correctly",
 "On every pixel where an untextured triangle is visible, each colour channel is the barycentric interpolation of the three vertex colours at the pixel centre, weighted by inverse depths when perspective-correct rendering is requested. This holds for any number of channels.",
 ["inputs","configurations"],"all triangles, colours, depths, channel counts and both interpolation modes",
 "Pinned images only compare a hash of two scenes; perspective-correct interpolation and channel counts other than 1 and 3 are hardly executed.",
 [H],[("barycentric equations","rasterize_triangle_interpolated, inv_matrix_3x3"),("row rasterization","render_part_interpolated")])
p("C04","Textured triangles show bilinear texture samples times interpolated shade",
 "On every pixel where a textured triangle is visible each channel is the bilinear sample of the texture at the interpolated texture coordinates times the interpolated shade, both perspective-correct when requested. Texel centres are at integer coordinates, the first coordinate indexing columns, and coordinates outside the texture are clamped to the nearest border texel, for any texture size including one texel.",
 ["inputs","configurations"],"all texture sizes, texture coordinates (inside, on texel centres, on or outside the borders), shades and both interpolation modes",
 "Tests sample the texture at generic interior points or pin a hash; borders, one-texel textures and perspective-correct texturing are not checked.",
 [H],[("bilinear sampling","bilinear_sample"),("row rasterization","render_part_textured_gouraud"),("equations","rasterize_triangle_textured_gouraud")])
p("C05","Silhouette antialiasing blends a ramp of the chosen width outside each edge",
 "With a positive antialiasing width, each flagged edge of a front-facing drawn triangle blends the edge's own interpolated colour over the image, on exactly the pixels lying outside the edge by less than the width, between its two end points and nearer than the depth buffer, with a weight decreasing linearly from one on the edge to zero at the width. Triangles are treated from the farthest to the nearest, the depth buffer is left unchanged, and with a zero width or no flag the image is not changed.",
 ["inputs","configurations"],"all edges (any direction, partly or fully outside the image), all widths, textured or not, both orientations, perspective-correct or not, any number of triangles",
 "The pinned images contain a few edge directions with a width of one; exact horizontal or vertical edges, image borders and other widths are not checked.",
 [H],[("edge equations","get_edge_stencil_equations"),("pixel range of a row","get_edge_xrange_from_ineq"),("blending","rasterize_edge_interpolated, rasterize_edge_textured_gouraud"),("sorting by depth","renderScene, sortcompare")])
p("C06","Antialiased error: squared residuals, with silhouettes blended in the error",
 "In error mode the error at each pixel is the squared distance, summed over channels, between the non-antialiased image and the observation, over which every flagged edge of a front-facing drawn triangle blends, from the farthest to the nearest, the squared distance between its own colour and the observation with the same ramp and pixels as for image antialiasing. The image and the depth buffer are those obtained without antialiasing.",
 ["inputs","configurations"],"all scenes, observations, channel counts and widths",
 "One pinned scene reaches this mode and only the total is compared.",
 [H],[("error buffer initialisation and edges","renderScene"),("blending in the error","rasterize_edge_interpolated_error, rasterize_edge_textured_gouraud_error")])
p("C07","Gradients through triangle interiors are the exact adjoint of the rendering",
 "Given a gradient of a loss with respect to the image, the backward pass adds to the gradients of vertex colours, shades, texture coordinates, texture texels and vertex positions exactly the sum over pixels of the image gradient times the derivative of the colour shown at that pixel by the visible triangle. Texels or vertices shared by several triangles or corners receive the sum of all contributions.",
 ["inputs","configurations"],"all scenes without antialiased edge, all image gradients, textured or not, any number of channels, shared vertices and texture vertices, texture borders, both edge modes",
 "Tests only follow an optimisation for a few iterations and compare the losses; the gradients of textures, shades and texture coordinates are never compared with anything.",
 [H],[("interpolated triangles","rasterize_triangle_interpolated_B, render_part_interpolated_B"),("textured triangles","rasterize_triangle_textured_gouraud_B, render_part_textured_gouraud_B, bilinear_sample_B"),("matrix inverse","inv_matrix_3x3_B"),("dispatch","renderScene_B")])
p("C08","Gradients through antialiased silhouettes are the exact adjoint",
 "With a positive antialiasing width the backward pass in image mode adds to the gradients of vertex positions, colours, shades, texture coordinates and texture exactly the image gradient times the derivative of the antialiased image, including the motion of the silhouette ramps and the attenuation of what lies behind them. Edges are differentiated in the reverse of the order in which they were blended.",
 ["inputs","configurations"],"all scenes with antialiased edges, any width, textured or not, overlapping edges, both orientations, all image gradients",
 "Tests run a few descent iterations on two objects with a width of one and compare a loss, which does not tell an exact gradient from a descent direction.",
 [H],[("edges","rasterize_edge_interpolated_B, rasterize_edge_textured_gouraud_B"),("edge equations","get_edge_stencil_equations_B"),("order","renderScene_B")])
p("C09","Gradients of the antialiased error are the exact adjoint",
 "In error mode the backward pass adds to the gradients of vertex positions, colours, shades, texture coordinates and texture exactly the gradient of the error times the derivative of the antialiased error, through both the non-antialiased image and the silhouette ramps.",
 ["inputs","configurations"],"all scenes, observations, error gradients and widths, textured or not",
 "One pinned scene reaches this mode; only the loss after a few iterations is compared.",
 [H],[("edges","rasterize_edge_interpolated_error_B, rasterize_edge_textured_gouraud_error_B"),("error to image","renderScene_B")])
p("C10","Rendering stays inside its arrays and rejects inconsistent scenes",
 "Rendering and its backward pass read and write only inside the arrays of the scene, the image, the depth, error and gradient buffers, for every scene that is accepted and whatever the coordinates, depths, texture coordinates and option values. A scene whose arrays, indices, texture or buffers are inconsistent with one another raises an exception before anything is written.",
 ["inputs","configurations"],"all scenes and buffers, including vertices far outside the image, infinite coordinates, empty textures, index arrays of other types, missing or wrongly sized buffers",
 "No test gives an inconsistent scene or extreme coordinates, and an out of bounds access of a few elements goes unnoticed.",
 [H,R,X],[("validation","renderScene, renderSceneB (python), renderSceneCpp, renderSceneBCpp, checkSceneValid"),("clipping of rows and columns","get_triangle_stencil_equations, get_xrange, get_edge_stencil_equations, get_edge_xrange_from_ineq"),("texture clamping","bilinear_sample")])
p("C11","Rendering leaves its inputs unchanged and the backward pass only accumulates",
 "Rendering never modifies the scene arrays, the background, the observation or the texture, and the backward pass with copies modifies neither the saved image, depth and error buffers nor the gradient given by the caller. Backward passes add to the scene's gradients: two passes give the sum of both, repeating a rendering or a backward pass gives the same result, and clearing sets all gradients to zero.",
 ["histories","inputs"],"all sequences of render, backward and clear calls on all scenes, in image and error mode",
 "Tests call one rendering and one backward pass alternately on fresh arrays and never look at the arrays they passed.",
 [R,X,PR],[("copies and saved state","Scene2D.render, render_backward, render_error, render_error_backward, clear_gradients"),("gradient arrays","renderSceneBCpp")])
p("C12","Camera projection follows the pinhole model with OpenCV distortion",
 "A point is projected by the extrinsic rigid transform, division by depth, the five coefficient radial and tangential distortion of OpenCV and the intrinsic matrix, and the returned depth is the coordinate along the optical axis. The camera centre maps to the origin of the camera frame, the inverse transform is consistent with it, a camera built from a field of view, a rotation and a centre has that centre, rotation and field of view, and the automatic camera, without distortion, sees the whole mesh.",
 ["inputs","configurations"],"all points, rotations, centres, intrinsic matrices, fields of view and distortion coefficients",
 "Tests use one symmetric rotation and no distortion except in a pinned image.",
 [R],[("projection","Camera.project_points, world_to_camera, left_mul_intrinsic"),("centre","Camera.get_center, camera_to_world_mtx_4x4"),("constructors","PerspectiveCamera, default_camera")])
p("C13","The backward projection is the exact adjoint of the projection",
 "Given gradients with respect to the projected points and optionally their depths, the backward projection returns exactly the gradient with respect to the 3D points, for any rotation, intrinsic matrix and distortion.",
 ["inputs","configurations"],"all points, cameras (rotation, skew, distortion) and incoming gradients",
 "The tests' cameras have a symmetric rotation, a diagonal intrinsic matrix and no distortion, which hide transpositions.",
 [R],[("adjoint","Camera.project_points_backward")])
p("C14","Face and vertex normals follow the current vertices and the orientation",
 "The normal of a face is the unit vector orthogonal to it, on the side given by the clockwise option, and the normal of a vertex is the unit vector along the sum of the normals of its faces. Normals always correspond to the vertices set last, and meshes whose adjacency is computed lazily behave like others.",
 ["inputs","histories"],"all meshes (open, closed, any orientation), all vertex positions without degenerate face, all sequences of vertex updates and normal queries",
 "Tests only observe normals through one shaded image.",
 [M],[("normals","TriMeshAdjacencies.compute_face_normals, compute_vertex_normals"),("caches","TriMesh.set_vertices, face_normals, vertex_normals")])
p("C15","Backward normals are the exact adjoint of the vertex normals",
 "The gradient with respect to the vertices obtained from a gradient with respect to the vertex normals is exact for both orientations, sums the contributions of all faces around each vertex and is added to the vertex gradient already present.",
 ["inputs","histories"],"all meshes, orientations, vertex positions without degenerate face and incoming gradients",
 "Tests compare losses along a fit and never the gradient itself.",
 [M,T],[("adjoint","TriMeshAdjacencies.compute_vertex_normals_backward, compute_face_normals_backward, TriMesh.compute_vertex_normals_backward")])
p("C16","Mesh topology: edges, adjacency, manifoldness, Laplacian, volume and orientation",
 "From the faces the mesh derives each undirected edge exactly once, which faces and vertices it joins, whether the mesh is manifold with consistent orientation, whether it is closed, its boundary edges, and a graph Laplacian whose rows sum to zero with the number of neighbours on the diagonal. The volume of a closed mesh is the signed enclosed volume with respect to its orientation option, and closed meshes oriented inside out are rejected.",
 ["inputs"],"all face lists in which every vertex is used, open or closed, manifold or not, either orientation",
 "Tests load one closed hand and one closed duck.",
 [M],[("tables","TriMeshAdjacencies.__init__, id_edge, boundary_edges"),("volume","TriMesh.compute_volume, check_orientation")])
p("C17","Silhouette edges are those with exactly one visible face",
 "An edge of a face is flagged as silhouette exactly when a single one of the faces sharing it is turned towards the viewer, with the same facing convention as the rasterizer, so that boundary edges of visible faces are flagged; a non-manifold mesh is refused.",
 ["inputs"],"all manifold meshes, open or closed, both orientations and all projected vertex positions",
 "Tests only observe flags through a few pinned images of closed meshes.",
 [M],[("flags","TriMeshAdjacencies.edge_on_silhouette, TriMesh.edge_on_silhouette")])
p("C18","Vertex lighting is ambient plus clamped directional, with exact gradients",
 "The luminosity of a vertex is the ambient light plus the positive part of minus the dot product of its normal with the directional light, or the ambient light alone without directional light, and untextured vertex colours are multiplied by it. The gradients with respect to vertex colours, ambient light, directional light and normals are the exact adjoint.",
 ["inputs"],"all normals, colours, light vectors and ambient values, and incoming gradients",
 "Tests only compare the loss of a fit and pinned images.",
 [R],[("lighting","Scene3D.compute_vertices_luminosity, _compute_vertices_colors_with_illumination"),("adjoint","Scene3D.compute_vertices_luminosity_backward, _compute_vertices_colors_with_illumination_backward")])
p("C19","The rigidity energy is a Laplacian quadratic with consistent derivatives",
 "The energy is half the regularisation weight times the squared norm of the Laplacian of the displacement from the reference, per coordinate; the returned gradient and Hessian are its exact derivatives. It is never negative, vanishes at the reference and under translations, ignores later changes of the caller's reference array, and a mesh with several components is refused.",
 ["inputs"],"all connected meshes, reference and current vertices and weights",
 "Tests only see the energy of one mesh along one fit.",
 [L],[("energy","LaplacianRigidEnergy.__init__, evaluate")])
p("C20","Rotations, normalisation and cross products have exact adjoints",
 "Rotating by a unit quaternion applies the corresponding rotation matrix to each vector, for one or many quaternions; normalisation yields vectors of unit length along the chosen axis. The backward functions of quaternion rotation, normalisation and cross product return the exact gradients with respect to all their inputs.",
 ["inputs"],"all quaternions, vectors, axes and incoming gradients",
 "There is no test for these functions; they are only used with one set of values along a fit.",
 [T],[("functions and adjoints","qrot, qrot_backward, normalize, normalize_backward, cross_backward")])
p("C21","3D scenes render their mesh, depth and buffers with the scene's own settings",
 "Rendering a 3D scene gives the image of the 2D scene made of the projected mesh, with its lit colours or lit texture, silhouette flags exactly when the antialiasing width is positive, and the orientation, culling, background, perspective and pixel-centre settings of the scene, mesh and camera. Depth rendering shows depths times the scale in the same geometry, and deferred rendering returns, at each visible pixel, the requested attributes (depth, face index, barycentric weights, normal, luminosity, position, colour or texture coordinates) of the visible face.",
 ["inputs","configurations"],"all meshes, cameras, lights, backgrounds and option values",
 "Tests render two meshes with one setting each; the combinations of options are not explored.",
 [R],[("assembly","Scene3D.render, render_depth, render_deferred")])
p("C22","3D gradients chain the renderer, camera, lighting and normals adjoints",
 "After the backward pass of a 3D colour or depth rendering, the gradients of the vertices, vertex colours and lights are those of the loss as a function of these quantities through lighting, normals, projection and rendering, for the view rendered last. Nothing is lost or counted twice, whatever was rendered or differentiated before.",
 ["inputs","histories"],"all untextured meshes, cameras, lights and image gradients, all sequences of renderings and backward passes",
 "Tests only compare losses along a fit.",
 [R],[("chain","Scene3D.render_backward, render_depth_backward, _render_2d_backward")])
p("C23","Loop subdivision refines each triangle into four with Loop's weights",
 "One subdivision step splits every face into four with the same orientation, moves old vertices to five eighths of themselves plus three eighths of the mean of their neighbours, places new vertices on interior edges at three eighths of each end plus one eighth of each opposite vertex, and averages the colours of edge ends. Closed manifold meshes stay closed and manifold, and several steps compose.",
 ["inputs"],"all closed manifold untextured meshes, colours and numbers of steps",
 "There is no test for subdivision.",
 [M],[("subdivision","loop_subdivision")])
p("C24","Fitters minimise their stated energy with its exact gradient",
 "For fitters, the reported energy is the squared image residual (weighted and averaged over frames for several frames) plus the rigidity energy, and the gradients used for shape, pose, light and colour are the derivatives of the residual with respect to these parameters. Lights and colours stay fixed when their update is disabled, and resetting restores the initial state.",
 ["inputs","histories"],"all meshes, poses, lights, images and sequences of steps, for the depth, single and multiple frame fitters",
 "Tests follow two fits for fifty iterations; the multiple frame fitter and the update options are never executed.",
 [F],[("fitters","MeshDepthFitter, MeshRGBFitterWithPose, MeshRGBFitterWithPoseMultiFrame")])
p("C25","The PyTorch interface gives the images and gradients of the numpy one",
 "Projection, normals, lighting, rendering and rigidity energy through PyTorch give the same values as the numpy functions, and differentiating any loss gives the same gradients, whatever the number of renderings in the loss and however often their results are used.",
 ["inputs","histories"],"all untextured meshes, cameras, antialiasing widths and losses over one or several renderings",
 "Tests compare one rendering per backward pass along two fits.",
 [PR,PM,"deodr/pytorch/laplacian_rigid_energy_pytorch.py","deodr/pytorch/mesh_fitter_pytorch.py"],[("autograd function","TorchDifferentiableRenderer2DFunc"),("mesh and camera","CameraPytorch, TriMeshAdjacenciesPytorch")])
p("C26","A mesh written to an OBJ file is read back",
 "Reading an OBJ file returns its vertices and triangular faces, with absolute or relative indices, ignoring normals and texture coordinates, and a mesh written by the library is read back with the same faces and the same vertices up to the printed precision.",
 ["inputs"],"all OBJ files made of vertices, normals, texture coordinates and triangular faces, all meshes",
 "Tests read one file.",
 ["deodr/obj.py"],[("reader and writer","read_obj, save_obj")])
p("C27","The one-call comparison returns the loss and its gradient",
 "Rendering a 2D scene against an observation in one call returns the rendered image and depths, the per-pixel error and its total, which is the masked squared residual (masked antialiased error in error mode), and leaves in the scene the exact gradient of that total, in place of or added to the previous gradients as requested. Unsupported gradients (perspective-correct, culling off) are refused with an exception.",
 ["inputs","histories","configurations"],"all scenes, observations, masks with any weights, both modes, with or without clearing",
 "Tests call it without mask and only compare the total.",
 [R],[("comparison","Scene2D.render_compare_and_backward"),("refusals","render_backward, render_error_backward, renderScene_B")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
