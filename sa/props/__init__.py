from . import access, cursor, frames, joints, simple, writer, wtext, loader
PROPS = {}
for m in (access, cursor, frames, joints, simple, writer, wtext, loader):
    PROPS.update(m.PROPS)
