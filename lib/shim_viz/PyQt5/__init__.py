"""stand-in: only what importing hyperstatic.app.viz needs, no window is ever opened"""
