exports.createTransformer = f => f;
