"""Small explicit-state / stateless model checking framework (see DESIGN.md)."""
