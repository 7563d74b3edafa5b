"""Run the real code (the deodr package found on sys.path) on a scene."""
import numpy as np


def scene2d(s):
    from deodr.differentiable_renderer import Scene2D
    return Scene2D(faces=s.faces.copy(), faces_uv=s.faces_uv.copy(), ij=s.ij.copy(), depths=s.depths.copy(), textured=s.textured.copy(), uv=s.uv.copy(),
                   shade=s.shade.copy(), colors=s.colors.copy(), shaded=s.shaded.copy(), edgeflags=s.edgeflags.copy(), height=s.height, width=s.width,
                   nb_colors=s.nb_colors, texture=s.texture.copy(), background_image=None if s.background_image is None else s.background_image.copy(),
                   background_color=None if s.background_color is None else s.background_color.copy(), clockwise=s.clockwise,
                   backface_culling=s.backface_culling, strict_edge=s.strict_edge, perspective_correct=s.perspective_correct,
                   integer_pixel_centers=s.integer_pixel_centers)


def render(s, sigma=0.0):
    return scene2d(s).render(sigma)


def grads(s2):
    return dict(ij=s2.ij_b, colors=s2.colors_b, uv=s2.uv_b, shade=s2.shade_b, texture=s2.texture_b)
