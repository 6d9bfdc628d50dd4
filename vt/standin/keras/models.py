from .engine.model import Model, load_model, model_from_json
